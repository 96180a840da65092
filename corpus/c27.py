F = 'report/report.py'
O = 'report/templates/op.tex'
G = 'report/templates/general_info.tex'
H = 'report/templates/op_header.tex'
T = 'report/templates/report.tex'
S = 'report/templates/emvadatasheet.sty'
R = 'process/results.py'
P = 'process/plotting.py'
ISM = """            if value is None or isinstance(value, jinja2.Undefined):
                return True
            return isinstance(value, (float, np.floating)) and np.isnan(value)
"""
M = [
    ('same', O, "%{{ op.results.sensitivity.QE.symbol %}}", "%{{ op['results']['sensitivity'].QE['symbol'] %}}"),
    ('same', O, "%{{ op.results.sensitivity.QE.symbol %}} &\n%{{ '%.2f' % op.results.sensitivity.QE.value %}}", "%{ set qe = op.results.sensitivity.QE %}%{{ qe.symbol %}} &\n%{{ '%.2f' % qe.value %}}"),
    ('same', O, "%{{ '%.2f' % op.results.sensitivity.QE.value %}}", "%{{ op.results.sensitivity.QE.value|missingnumber(2) %}}"),
    ('same', O, "%{{ '%.2f' % op.results.sensitivity.QE.value %}}", "%{{ '%.2f'|format(op.results.sensitivity.QE.value) %}}"),
    ('same', O, "%{{ op.results.sensitivity.u_p_min_area.value|missingnumber(3) %}}", "%{ if op.results.sensitivity.u_p_min_area.value is none %}-%{ else %}%{{ '%.3f' % op.results.sensitivity.u_p_min_area.value %}}%{ endif %}"),
    ('same', G, "%{{ basic.vendor|missing %}}", "%{{ basic.vendor or '-' %}}"),
    ('same', G, "%{ include 'op_header.tex' %}", "%{ with op = op %}%{ include 'op_header.tex' %}%{ endwith %}"),
    ('same', F, ISM, """            if value is None or isinstance(value, jinja2.Undefined):
                return True
            try:
                return bool(np.isnan(value))
            except TypeError:
                return False
"""),
    ('same', F, ISM, """            return (value is None or isinstance(value, jinja2.Undefined) or
                    isinstance(value, (float, np.floating)) and bool(np.isnan(value)))
"""),
    ('same', F, ISM, """            if value is None or isinstance(value, jinja2.Undefined):
                return True
            return value != value
"""),
    ('same', F, "            t = '{:.%df}' % precision\n            return t.format(value)\n", "            return '%.*f' % (precision, value)\n"),
    ('same', F, "            t = '{:.%df}' % precision\n            return t.format(value)\n", "            return f'{value:.{precision}f}'\n"),
    ('same', F, "        renderer.filters['missing'] = missingfilter\n        renderer.filters['missingnumber'] = missingnumber\n", "        renderer.filters.update(missing=missingfilter, missingnumber=missingnumber)\n"),
    ('same', F, "        return stylesheet.render(marketing=self.marketing,\n                                 basic=self.basic)\n", "        return stylesheet.render({'marketing': self.marketing, 'basic': self.basic})\n"),
    ('same', F, """        report = self.renderer.get_template('report.tex')
        return report.render(marketing=self.marketing,
                             basic=self.basic,
                             setup=self.setup,
                             operation_points=self.ops,
                             cover_page=self.cover_page)
""", """        context = dict(marketing=self.marketing, basic=self.basic, setup=self.setup,
                       operation_points=self.ops, cover_page=self.cover_page)
        return self.renderer.get_template('report.tex').render(**context)
"""),
    ('same', O, "%{ if not op.summary_only %}", "%{ if op.summary_only is defined and not op.summary_only %}"),
    # bugs
    ('bug', O, "op.results.sensitivity.inverse_K.symbol", "op.results.sensitivity.inverseK.symbol"),
    ('bug', O, "op.results.linearity.LE_min.symbol", "op.results.sensitivity.LE_min.symbol"),
    ('bug', O, "op.results.dark_current.u_I_mean_DN.unit", "op.results.dark_current.u_I_mean_DN.units"),
    ('bug', O, "op.results.sensitivity.u_p_sat_area.value|missingnumber(3)", "'%.3f' % op.results.sensitivity.u_p_sat_area.value"),
    ('bug', O, "op.results.dark_current.u_I_var.value|missingnumber(3)", "'%.3f' % op.results.dark_current.u_I_var.value"),
    ('bug', O, "op.results.spatial.DSNU1288_row.value|missingnumber(1)", "op.results.spatial.DSNU1288_row.value|round(1)"),
    ('bug', O, "op.results.spatial.PRNU1288_col.value|missingnumber(1)", "'%.1f' % op.results.spatial.PRNU1288_col.value"),
    ('bug', O, "op.plots.PlotLinearity ", "op.plots.PlotLinear "),
    ('bug', P, "class PlotLinearity(", "class PlotLinearityFit("),
    ('bug', G, "basic.sensor_diagonal", "basic.diagonal"),
    ('bug', G, "basic.readout_type|missing", "basic.readout|missing"),
    ('bug', G, 'elif basic.sensor_type == "CMOS"', 'elif basic.sensor == "CMOS"'),
    ('bug', G, "basic.qe_plot|missing(marketing.missingplot)", "basic.qe_plot|missing(marketing.missing_plot)"),
    ('bug', G, "basic.overlap_capabilities|missing", "basic.overlap_capabilities"),
    ('bug', G, "%{{ value|missing %}}", "%{{ value %}}"),
    ('bug', T, "%{ for op in operation_points %}", "%{ for op in operations %}"),
    ('bug', T, "include 'op.tex'", "include 'operation.tex'"),
    ('bug', T, "%{ if marketing.watermark %}", "%{ if marketing.water %}"),
    ('bug', S, "basic.model|missing", "basic.model|missng"),
    ('bug', S, "marketing.logo", "marketing.icon"),
    ('bug', F, "         'shutter_type': None,\n", ""),
    ('bug', F, "                             cover_page=self.cover_page)", "                             cover=self.cover_page)"),
    ('bug', F, "        return stylesheet.render(marketing=self.marketing,\n                                 basic=self.basic)\n", "        return stylesheet.render(marketing=self.marketing)\n"),
    ('bug', F, "            if value is None or isinstance(value, jinja2.Undefined):\n                return True\n", ""),
    ('bug', F, "isinstance(value, (float, np.floating)) and np.isnan(value)", "value is np.nan"),
    ('bug', F, "isinstance(value, (float, np.floating)) and np.isnan(value)", "isinstance(value, float) and np.isnan(value)"),
    ('bug', F, ISM, "            return not value\n"),
    ('bug', F, "            if is_missing(value):\n                return '-'\n            t =", "            if value is None:\n                return '-'\n            t ="),
    ('bug', F, "            t = '{:.%df}' % precision\n", "            t = '{:.%dg}' % precision\n"),
    ('bug', F, "        renderer.filters['missingnumber'] = missingnumber\n", ""),
    ('bug', F, "            block_end_string='%}',", "            block_end_string='}%',"),
    ('bug', F, "        op['results'] = results.results_by_section\n", "        op['results'] = results.results\n"),
    ('bug', F, "        op['plots'] = self._plots(results, op['id'])\n", "        op['figures'] = self._plots(results, op['id'])\n"),
    ('bug', R, "            :Section: dark_current\n            :Short: Dark Current from mean\n            :Symbol: $\\mu_{I.mean}$", "            :Section: dark\n            :Short: Dark Current from mean\n            :Symbol: $\\mu_{I.mean}$"),
    ('bug', R, "            :Short: DSNUcol\n            :Symbol: $DSNU_{1288.col}$\n", "            :Short: DSNUcol\n"),
    ('bug', R, "        return 100.0 * self.R / self.K\n", "        if not self.K:\n            return None\n        return 100.0 * self.R / self.K\n"),
]
