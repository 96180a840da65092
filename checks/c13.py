"""Spatial variances, DSNU, PRNU"""
from .results_common import *

NOTE = ('Gated value-flow analysis: every listed member of Results1288 is evaluated abstractly over symbolic temporal '
        'arrays of symbolic length and symbolic spatial data, through every helper it calls; its normal form must equal '
        'that of the reference definition in specs/spec.py evaluated in the same abstract state.')
MEMBERS = ('sigma_2_y_stack', 'sigma_2_y_stack_dark', 's_2_y_measured', 's_2_y_measured_dark', 's_2_y', 's_2_y_dark',
           's_2_y_cav', 's_2_y_cav_dark', 's_2_y_rav', 's_2_y_rav_dark', 's_2_y_col', 's_2_y_col_dark', 's_2_y_row',
           's_2_y_row_dark', 's_2_y_pixel', 's_2_y_pixel_dark', 'DSNU1288', 'DSNU1288_DN', 'DSNU1288_row',
           'DSNU1288_col', 'DSNU1288_pixel', 'PRNU1288', 'PRNU1288_row', 'PRNU1288_col', 'PRNU1288_pixel')
CONTROLS = ('s_2_y_row',)
MIN = 2 * len(MEMBERS)


def run(ck):
    members(ck, MEMBERS)
    for c in CONTROLS:
        control(ck, c)
