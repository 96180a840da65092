"""Responsivity, gain, quantum efficiency"""
from .results_common import *

NOTE = ('Gated value-flow analysis: every listed member of Results1288 is evaluated abstractly over symbolic temporal '
        'arrays of symbolic length and symbolic spatial data, through every helper it calls; its normal form must equal '
        'that of the reference definition in specs/spec.py evaluated in the same abstract state.')
MEMBERS = ('R', 'K', 'QE', 'inverse_K')
CONTROLS = ('R', 'K')
MIN = 2 * len(MEMBERS)


def run(ck):
    members(ck, MEMBERS)
    for c in CONTROLS:
        control(ck, c)
