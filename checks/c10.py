"""Thresholds, saturation capacity, SNR, dynamic range"""
from .results_common import *

NOTE = ('Gated value-flow analysis: every listed member of Results1288 is evaluated abstractly over symbolic temporal '
        'arrays of symbolic length and symbolic spatial data, through every helper it calls; its normal form must equal '
        'that of the reference definition in specs/spec.py evaluated in the same abstract state.')
MEMBERS = ('u_p_sat', 'u_e_sat', 'u_p_min', 'u_e_min', 'SNR_max', 'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max',
           'DR', 'DR_dB', 'u_p_sat_area', 'u_e_sat_area', 'u_p_min_area', 'u_e_min_area')
CONTROLS = ('SNR_max_dB', 'u_p_min')
MIN = 2 * len(MEMBERS) + 4


def run(ck):
    members(ck, MEMBERS, area=numsym('pixel_area'))
    members(ck, [m for m in MEMBERS if m.endswith('_area')], forced=(False,), area=NONE, tag=' (no pixel area)')
    for c in CONTROLS:
        control(ck, c)
