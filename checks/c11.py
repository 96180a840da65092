"""Dark noise and dark current"""
from .results_common import *

NOTE = ('Gated value-flow analysis: every listed member of Results1288 is evaluated abstractly over symbolic temporal '
        'arrays of symbolic length and symbolic spatial data, through every helper it calls; its normal form must equal '
        'that of the reference definition in specs/spec.py evaluated in the same abstract state.')
MEMBERS = ('s2q', 'sigma_y_dark', 'sigma_d', 'u_I_mean_DN', 'u_I_var_DN', 'u_I_mean', 'u_I_var')
CONTROLS = ('sigma_y_dark',)
MIN = 2 * len(MEMBERS)


def run(ck):
    members(ck, MEMBERS)
    for c in CONTROLS:
        control(ck, c)
