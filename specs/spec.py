"""Reference definitions.  These functions are never executed: the analyser evaluates
them abstractly, in the same abstract state as the code under analysis, and compares
the values they denote."""
import math
import os
import numpy as np
from scipy.ndimage import convolve
from emva1288.process import routines


# ------------------------------------------------------------------ Results1288

def r_s2q(self):
    return 1.0 / 12


def r_index_start(self):
    return 0


def r_index_sensitivity_min(self):
    return 0


def r_index_u_ysat(self, forced):
    if forced:
        return forced
    v = self.temporal['s2_y']
    best = 0
    at = 0
    for i in reversed(range(len(v))):
        if v[i] >= best or v[abs(i - 1)] >= best:
            best = v[i]
            at = i
        elif v[i] < best and v[abs(i - 1)] < best:
            break
    return at


def corrected(self):
    return self.temporal['u_y'] - self.temporal['u_ydark']


def r_index_sensitivity_max(self):
    y = corrected(self)
    return np.argwhere(y <= 0.7 * y[self.index_u_ysat]).max()


def r_index_linearity_min(self):
    y = corrected(self)
    return np.argwhere(y >= 0.05 * y[self.index_u_ysat]).min()


def r_index_linearity_max(self):
    y = corrected(self)
    return np.argwhere(y <= 0.95 * y[self.index_u_ysat]).max()


def slope0(x, y):
    return np.sum(x * y) / np.sum(x * x)


def line(x, y):
    n = len(x)
    sx, sy, sxx, sxy = np.sum(x), np.sum(y), np.sum(x * x), np.sum(x * y)
    d = n * sxx - sx * sx
    return (n * sxy - sx * sy) / d, (sxx * sy - sx * sxy) / d


def r_R(self):
    a, b = self.index_sensitivity_min, self.index_sensitivity_max + 1
    return slope0(self.temporal['u_p'][a:b], corrected(self)[a:b])


def r_K(self):
    a, b = self.index_sensitivity_min, self.index_sensitivity_max + 1
    dv = self.temporal['s2_y'] - self.temporal['s2_ydark']
    return slope0(corrected(self)[a:b], dv[a:b])


def r_QE(self):
    return 100.0 * self.R / self.K


def r_inverse_K(self):
    return 1.0 / self.K


def several_exposures(self):
    return len(np.unique(self.temporal['texp'])) > 2


def r_sigma_y_dark(self):
    if several_exposures(self):
        s2 = line(self.temporal['texp'], self.temporal['s2_ydark'])[1]
    else:
        s2 = self.temporal['s2_ydark'][0]
    return np.sqrt(max(s2, 0.24))


def r_sigma_d(self):
    return np.sqrt(self.sigma_y_dark ** 2 - 1.0 / 12) / self.K


def r_u_I_mean_DN(self):
    if not several_exposures(self):
        return np.nan
    return line(self.temporal['texp'], self.temporal['u_ydark'])[0] * 1e9


def r_u_I_var_DN(self):
    if not several_exposures(self):
        return np.nan
    s = line(self.temporal['texp'], self.temporal['s2_ydark'])[0]
    if s < 0:
        return np.nan
    return s * 1e9 / self.K


def r_u_I_mean(self):
    return self.u_I_mean_DN / self.K


def r_u_I_var(self):
    return self.u_I_var_DN / self.K


def r_u_p_sat(self):
    return self.temporal['u_p'][self.index_u_ysat]


def r_u_e_sat(self):
    return self.QE / 100.0 * self.u_p_sat


def r_u_p_min(self):
    return (self.sigma_y_dark / self.K + 0.5) / (self.QE / 100.0)


def r_u_e_min(self):
    return self.QE / 100.0 * self.u_p_min


def per_area(self, v):
    if self.pixel_area:
        return v / self.pixel_area
    return None


def r_u_p_sat_area(self):
    return per_area(self, self.u_p_sat)


def r_u_e_sat_area(self):
    return per_area(self, self.u_e_sat)


def r_u_p_min_area(self):
    return per_area(self, self.u_p_min)


def r_u_e_min_area(self):
    return per_area(self, self.u_e_min)


def r_SNR_max(self):
    return np.sqrt(self.u_e_sat)


def r_SNR_max_dB(self):
    return 20 * np.log10(self.SNR_max)


def r_SNR_max_bit(self):
    return np.log2(self.SNR_max)


def r_inverse_SNR_max(self):
    return 100 / self.SNR_max


def r_DR(self):
    return self.u_p_sat / self.u_p_min


def r_DR_dB(self):
    return 20 * np.log10(self.DR)


def r_linearity(self):
    y = corrected(self)
    x = self.temporal['u_p']
    a, b = self.index_linearity_min, self.index_linearity_max + 1
    xs, ys = x[a:b], y[a:b]
    w = 1 / ys ** 2
    sw, sx, sy, sxx, sxy = np.sum(w), np.sum(w * xs), np.sum(w * ys), np.sum(w * xs ** 2), np.sum(w * xs * ys)
    det = sw * sxx - sx ** 2
    slope = (sw * sxy - sx * sy) / det
    offset = (sxx * sy - sx * sxy) / det
    fit = slope * x + offset
    dev = 100 * (y - fit) / fit
    return {'fit_slope': slope, 'fit_offset': offset, 'relative_deviation': dev,
            'linearity_error_min': np.min(dev[a:b]), 'linearity_error_max': np.max(dev[a:b])}


def r_LE_min(self):
    return self.linearity()['linearity_error_min']


def r_LE_max(self):
    return self.linearity()['linearity_error_max']


def r_sigma_2_y_stack(self):
    return self.spatial['var_mean']


def r_sigma_2_y_stack_dark(self):
    return self.spatial['var_mean_dark']


def r_s_2_y_measured(self):
    return self.spatial['avg_var']


def r_s_2_y_measured_dark(self):
    return self.spatial['avg_var_dark']


def r_s_2_y(self):
    return self.spatial['avg_var'] - self.spatial['var_mean'] / self.spatial['L']


def r_s_2_y_dark(self):
    return self.spatial['avg_var_dark'] - self.spatial['var_mean_dark'] / self.spatial['L_dark']


def r_s_2_y_cav(self):
    return self.spatial['avg_var_cav']


def r_s_2_y_cav_dark(self):
    return self.spatial['avg_var_cav_dark']


def r_s_2_y_rav(self):
    return self.spatial['avg_var_rav']


def r_s_2_y_rav_dark(self):
    return self.spatial['avg_var_rav_dark']


def components(s2, cav, rav, M, N):
    """(column, row, pixel) variances of the EMVA1288 standard"""
    q = M * N - M - N
    col = (M * N - M) / q * cav - N / q * (s2 - rav)
    row = (M * N - N) / q * rav - M / q * (s2 - cav)
    pix = M * N / q * (s2 - cav - rav)
    return col, row, pix


def bright(self):
    s = self.spatial
    return components(self.s_2_y, self.s_2_y_cav, self.s_2_y_rav, s['M'], s['N'])


def dark(self):
    s = self.spatial
    return components(self.s_2_y_dark, self.s_2_y_cav_dark, self.s_2_y_rav_dark, s['M_dark'], s['N_dark'])


def r_s_2_y_col(self):
    return bright(self)[0]


def r_s_2_y_row(self):
    return bright(self)[1]


def r_s_2_y_pixel(self):
    return bright(self)[2]


def r_s_2_y_col_dark(self):
    return dark(self)[0]


def r_s_2_y_row_dark(self):
    return dark(self)[1]


def r_s_2_y_pixel_dark(self):
    return dark(self)[2]


def dsnu(v, k):
    if v < 0:
        return np.nan
    return np.sqrt(v) / k


def r_DSNU1288(self):
    return dsnu(self.s_2_y_dark, self.K)


def r_DSNU1288_DN(self):
    return dsnu(self.s_2_y_dark, 1)


def r_DSNU1288_row(self):
    return dsnu(self.s_2_y_row_dark, self.K)


def r_DSNU1288_col(self):
    return dsnu(self.s_2_y_col_dark, self.K)


def r_DSNU1288_pixel(self):
    return dsnu(self.s_2_y_pixel_dark, self.K)


def prnu(self, b, d):
    return 100 * np.sqrt(b - d) / (self.spatial['avg_mean'] - self.spatial['avg_mean_dark'])


def r_PRNU1288(self):
    return prnu(self, self.s_2_y, self.s_2_y_dark)


def r_PRNU1288_row(self):
    return prnu(self, self.s_2_y_row, self.s_2_y_row_dark)


def r_PRNU1288_col(self):
    return prnu(self, self.s_2_y_col, self.s_2_y_col_dark)


def r_PRNU1288_pixel(self):
    return prnu(self, self.s_2_y_pixel, self.s_2_y_pixel_dark)


# deliberately wrong definitions: positive controls, must be refuted on every run

def wrong_R(self):
    a, b = self.index_sensitivity_min, self.index_sensitivity_max
    return slope0(self.temporal['u_p'][a:b], corrected(self)[a:b])


def wrong_K(self):
    a, b = self.index_sensitivity_min, self.index_sensitivity_max + 1
    return slope0(corrected(self)[a:b], self.temporal['s2_y'][a:b])


def wrong_index_sensitivity_max(self):
    y = corrected(self)
    return np.argwhere(y < 0.7 * y[self.index_u_ysat]).max()


def wrong_SNR_max_dB(self):
    return 10 * np.log10(self.SNR_max)


def wrong_u_p_min(self):
    return (self.sigma_y_dark / self.K + 1) / (self.QE / 100.0)


def wrong_sigma_y_dark(self):
    if several_exposures(self):
        s2 = line(self.temporal['texp'], self.temporal['s2_ydark'])[0]
    else:
        s2 = self.temporal['s2_ydark'][0]
    return np.sqrt(max(s2, 0.24))


def wrong_LE_max(self):
    d = self.linearity()
    return np.max(d['relative_deviation'])


def wrong_s_2_y_row(self):
    return bright(self)[0]


# ------------------------------------------------------------------ image reduction

def s_get_int_imgs(imgs):
    x = [i.astype(np.int64) for i in imgs]
    n = len(imgs)
    total = 0
    square = 0
    change = 0
    for k in range(n):
        total = total + x[k]
        square = square + x[k] * x[k]
    for k in range(1, n):
        change = change + (np.mean(x[k]) - np.mean(x[k - 1]))
    return {'L': n, 'sum': total, 'pvar': n * (n * square - total * total), 'dmean': change}


def wrong_get_int_imgs(imgs):
    r = s_get_int_imgs(imgs)
    return r["L"] * r["pvar"]


# ------------------------------------------------------------------ temporal and spatial data

def point(d, pixels):
    return d['sum'] / (2.0 * pixels), d['pvar'] / (4.0 * pixels) - d['dmean'] * d['dmean'] / 2


def s_temporal(data, pixels):
    texp = sorted(data.keys())
    u_p, u_y, s2_y, dark, s2_dark = [], [], [], [], []
    for t in texp:
        mean, var = point(data[t][0.0], pixels)
        dark.append(mean)
        s2_dark.append(var)
        for p in sorted(data[t].keys())[1:]:
            mean, var = point(data[t][p], pixels)
            u_p.append(p)
            u_y.append(mean)
            s2_y.append(var)
    if len(texp) == 1:
        n = len(u_p)
        texp = [texp[0]] * n
        dark = [dark[0]] * n
        s2_dark = [s2_dark[0]] * n
    return {'texp': np.asarray(texp), 'u_p': np.asarray(u_p), 'u_y': np.asarray(u_y), 's2_y': np.asarray(s2_y),
            'u_ydark': np.asarray(dark), 's2_ydark': np.asarray(s2_dark)}


def wrong_temporal(data, pixels):
    u_p = []
    for t in sorted(data.keys()):
        for p in list(data[t].keys())[1:]:
            u_p.append(p)
    return {'u_p': np.asarray(u_p)}


def s_stack(d, rows, cols):
    total = d['sum'].astype(np.int64)
    pvar = d['pvar'].astype(np.int64)
    n = d['L']
    image = total / n
    mean = np.mean(image)
    var = np.mean(pvar) / (n * n * (n - 1))
    pixels = rows * cols
    return {'sum': total, 'L': n, 'M': rows, 'N': cols, 'avg_mean': mean,
            'avg_var': np.sum((image - mean) ** 2) / (pixels - 1),
            'var_mean': var,
            'avg_var_cav': np.sum((np.mean(image, axis=0) - mean) ** 2) / cols - var / (n * rows),
            'avg_var_rav': np.sum((np.mean(image, axis=1) - mean) ** 2) / rows - var / (n * cols)}


def wrong_stack(d, rows, cols):
    r = s_stack(d, rows, cols)
    r['avg_var_cav'] = r['avg_var_rav']
    r['var_mean'] = r['var_mean'] * d['L']
    return r


def s_temporal_bad(data):
    for t in sorted(data.keys()):
        if 0.0 not in data[t] or len(data[t]) < 2:
            return True
    return False


def wrong_temporal_bad(data):
    t = sorted(data.keys())[0]
    return 0.0 not in data[t] or len(data[t]) < 2


# ------------------------------------------------------------------ loader

def load(path, *args, **kwargs):
    """stand-in load function; the analyser supplies the image"""
    return path


def s_series_spatial(imgs):
    return s_get_int_imgs(imgs)


def s_series_temporal(imgs):
    d = s_get_int_imgs(imgs)
    return {'sum': np.sum(d['sum']), 'pvar': np.sum(d['pvar']), 'dmean': d['dmean']}


def wrong_series_temporal(imgs):
    d = s_get_int_imgs(imgs)
    return {'sum': np.sum(d['sum']), 'pvar': np.mean(d['pvar']), 'dmean': d['dmean']}


# ------------------------------------------------------------------ histograms

def s_histogram(img, qmax):
    y = np.ma.compressed(img)
    low = np.min(y)
    q = np.max(y) - low
    w = 1
    if q + 1 > qmax:
        w = q // qmax + 1
    n = q // w + 1
    bins = low + w * np.arange(n)
    edges = low + w * np.arange(n + 1)
    mu, sigma = np.mean(y), np.std(y)
    model = (q / n) * len(y) / (np.sqrt(2 * np.pi) * sigma) * np.exp(-(bins - mu) ** 2 / (2 * sigma ** 2))
    return {'bins': bins, 'values': np.histogram(y, edges)[0], 'model': model}


def wrong_histogram(img, qmax):
    y = np.ma.getdata(img)
    low = np.min(y)
    return {'values': np.histogram(y, low + np.arange(np.max(y) - low + 2))[0], 'bins': low + np.arange(np.max(y) - low)}


def prnu_image(self):
    """bright minus dark average, times the common multiple of the stack counts"""
    n, d = int(self.spatial['L']), int(self.spatial['L_dark'])
    scale = n * d // math.gcd(n, d)
    return self.spatial['sum'] * (scale // n) - self.spatial['sum_dark'] * (scale // d), scale


def shares(h, y):
    """percentage of the valid pixels at or above every bin"""
    return 100 * np.cumsum(h['values'][::-1])[::-1] / np.ma.count(y)


def r_histogram_PRNU(self):
    y, scale = prnu_image(self)
    f = routines.high_pass_filter(y, 5)
    h = routines.Histogram1288(f['img'], 256)
    return {'bins': h['bins'] / (scale * f['multiplicator']), 'values': h['values'], 'model': h['model']}


def r_histogram_PRNU_accumulated(self):
    y, scale = prnu_image(self)
    f = routines.high_pass_filter(y, 5)
    y = np.abs(f['img'] - int(np.mean(f['img'])))
    h = routines.Histogram1288(y, 256)
    return {'bins': h['bins'] / (scale * f['multiplicator']), 'values': shares(h, y), 'model': h['model']}


def r_histogram_DSNU(self):
    y = self.spatial['sum_dark']
    n = self.spatial['L_dark']
    h = routines.Histogram1288(y, 256)
    return {'bins': h['bins'] / n - np.mean(y) / n, 'values': h['values'], 'model': h['model']}


def r_histogram_DSNU_accumulated(self):
    y = self.spatial['sum_dark']
    y = np.abs(y - int(np.mean(y)))
    h = routines.Histogram1288(y, 256)
    return {'bins': h['bins'] / self.spatial['L_dark'], 'values': shares(h, y), 'model': h['model']}


def wrong_histogram_DSNU(self):
    y = self.spatial['sum_dark']
    h = routines.Histogram1288(y, 256)
    return {'bins': h['bins'] / self.spatial['L'] - np.mean(y) / self.spatial['L'], 'values': h['values']}


# ------------------------------------------------------------------ spectrum and filter

def s_fft(img, rotate, n):
    """power spectrum of the mean-free lines (plain image)"""
    if rotate:
        img = np.transpose(img)
    cols = img.shape[1]
    x = img.astype(np.float64)
    x = x - np.mean(x)
    f = np.fft.fft(x, axis=1)
    p = np.real(f) ** 2 + np.imag(f) ** 2
    return (np.mean(p, axis=0) / cols / n ** 2)[:cols // 2 + 1]


def wrong_fft(img, rotate, n):
    r = s_fft(img, rotate, n)
    return r / n


def s_filter_masked(img, dim):
    """-1 over the unmasked neighbours, summing to zero; the mask is kept"""
    h = dim // 2
    mask = np.ma.getmask(img)
    used = np.ones(img.shape)
    used = convolve(np.ma.MaskedArray(used, mask).filled(0), np.ones((dim, dim)))
    used = np.ma.MaskedArray(used, mask)[h:-h, h:-h]
    if used.max() != used.min():
        raise ValueError
    kernel = -np.ones((dim, dim))
    kernel[h, h] = used.max() - 1
    out = np.ma.MaskedArray(convolve(img.filled(0), kernel), mask)[h:-h, h:-h]
    return {'img': out, 'multiplicator': used.max()}


def wrong_filter(img, dim):
    h = dim // 2
    kernel = -np.ones((dim, dim))
    kernel[h, h] = dim * dim
    return {'img': convolve(img, kernel)[h:-h, h:-h], 'multiplicator': dim * dim}


def s_filter(img, dim):
    h = dim // 2
    kernel = -np.ones((dim, dim))
    kernel[h, h] = dim * dim - 1
    return {'img': convolve(img, kernel)[h:-h, h:-h], 'multiplicator': dim * dim}


# ------------------------------------------------------------------ camera

def s_photons(exposure, radiance, pixel_area, wavelength, f_number):
    h = 6.63e-34
    c = 3.00e8
    e = np.pi * radiance / (1 + (2 * f_number) ** 2) * (wavelength * 1e-9)
    return e * (pixel_area * 1e-12) * (exposure * 1e-9) * (wavelength * 1e-9) / (h * c)


def wrong_photons(exposure, radiance, pixel_area, wavelength, f_number):
    return s_photons(exposure, radiance, pixel_area, wavelength, f_number / 2)


def s_radiance(exposure, photons, pixel_area, wavelength, f_number):
    h = 6.63e-34
    c = 3.00e8
    e = photons * h * c / ((pixel_area * 1e-12) * (exposure * 1e-9) * (wavelength * 1e-9))
    return e * (1 + (2 * f_number) ** 2) / np.pi / (wavelength * 1e-9)


def s_dark_current(temperature, temperature_ref, temperature_doubling, dark_current_ref):
    return dark_current_ref * 2 ** ((temperature - temperature_ref) / temperature_doubling)


def s_photons_for(target, exposure, K, qe, w, temperature, temperature_ref, temperature_doubling, dark_current_ref, h, wd):
    thermal = s_dark_current(temperature, temperature_ref, temperature_doubling, dark_current_ref) * exposure * 1e-9
    n = len(w)
    p = np.zeros((h, wd, n))
    return p + (target / K - thermal) / n / np.mean(qe)


def s_radiance_for(target, exposure, K, qe, w, pixel_area, f_number, temperature, temperature_ref, temperature_doubling,
                   dark_current_ref, h, wd):
    p = s_photons_for(target, exposure, K, qe, w, temperature, temperature_ref, temperature_doubling, dark_current_ref, h, wd)
    return s_radiance(exposure, p, pixel_area, w, f_number)


def s_grab(rng, radiance, temperature, f_number, exposure, K, blackoffset, img_max, qe, w, pixel_area, temperature_ref,
           temperature_doubling, dark_current_ref, dark_signal_0, sigma2_dark_0, u_esat, dsnu, prnu, h, wd):
    thermal = s_dark_current(temperature, temperature_ref, temperature_doubling, dark_current_ref) * exposure * 1e-9
    light = np.sum(s_photons(exposure, radiance, pixel_area, w, f_number) * qe, axis=2) * prnu
    noise = rng.normal(dark_signal_0, np.sqrt(sigma2_dark_0), (h, wd))
    e = rng.poisson(thermal, (h, wd)) + rng.poisson(light, (h, wd)) + noise + dsnu
    e = np.clip(e, 0, u_esat)
    y = K * e + rng.uniform(-0.5, 0.5, (h, wd)) + blackoffset
    return np.clip(np.rint(y), 0, img_max)


def wrong_grab(rng, radiance, temperature, f_number, exposure, K, blackoffset, img_max, qe, w, pixel_area, temperature_ref,
               temperature_doubling, dark_current_ref, dark_signal_0, sigma2_dark_0, u_esat, dsnu, prnu, h, wd):
    thermal = s_dark_current(temperature, temperature_ref, temperature_doubling, dark_current_ref) * exposure * 1e-9
    light = np.sum(s_photons(exposure, radiance, pixel_area, w, f_number) * qe, axis=2) * prnu
    noise = rng.normal(dark_signal_0, np.sqrt(sigma2_dark_0), (h, wd))
    e = rng.poisson(thermal, (h, wd)) + rng.poisson(light, (h, wd)) + noise + dsnu
    y = K * np.clip(e, 0, u_esat) + rng.uniform(-0.5, 0.5, (h, wd)) + blackoffset
    return np.rint(np.clip(y, 0, img_max + 1))


def s_nearest(value, grid):
    return grid[np.argmin(np.abs(grid - value))]


def s_setting(value, lo, hi, steps):
    return s_nearest(value, np.linspace(lo, hi, steps))


def wrong_setting(value, lo, hi, steps):
    return s_nearest(value, np.linspace(lo, hi, steps + 1))


def s_find_gain(cam):
    g = cam.Ks[0]
    for g in cam.Ks:
        cam.K = g
        a = cam.grab(0).astype(np.int64)
        b = cam.grab(0).astype(np.int64)
        if np.std(a - b) > 0.5:
            return g
    return g


def s_find_offset(cam):
    o = cam.blackoffsets[0]
    for o in cam.blackoffsets:
        cam.blackoffset = o
        img = cam.grab(0)
        n = cam.height * cam.width
        if n - np.sum(img != 0) < 0.005 * n:
            return o
    return o


def wrong_find_offset(cam):
    o = cam.blackoffsets[0]
    for o in cam.blackoffsets:
        cam.blackoffset = o
        img = cam.grab(0)
        n = cam.height * cam.width
        if n - np.sum(img != 0) < 0.05 * n:
            return o
    return o


# ---------------------------------------------------------------- patterns, efficiencies (C32)

def s_tile(pattern, height, width):
    t = np.tile(pattern, (height, width))[:height, :width]
    if height == 1:
        return t[0]
    return t


def wrong_tile(pattern, height, width):
    return np.tile(pattern, (height, width))[:width, :height]


def s_array_tile(pattern, height, width):
    return np.tile(pattern, (height, width, 1))[:height, :width]


# ---------------------------------------------------------------- bad pixels (C33)

def s_bad_pixel(cam, n, full_well, value):
    """final dark nonuniformity"""
    for p in cam._rng.choice(cam.height * cam.width, n, replace=False):
        cam.DSNU[p // cam.width, p % cam.width] = full_well * (1 if value is None else value)
    return cam.DSNU


# ---------------------------------------------------------------- generators

def s_points(cam, exposure_min, exposure_max, exposure_fixed, radiance_min, radiance_max, gain, blackref, steps):
    if gain is not None:
        cam.K = gain
    if blackref is not None:
        cam.blackoffset = blackref
    full = (cam.height, cam.width, len(cam.qe.w))
    dark = np.zeros(full)
    if exposure_fixed is None:
        lo = cam.exposure_min if exposure_min is None else exposure_min
        hi = cam.exposure_max if exposure_max is None else exposure_max
        cam.exposure = hi
        bright = cam.get_radiance_for()
        times = np.round(np.linspace(lo, hi, steps), 1)
        temporal = {}
        for t in times:
            temporal[t] = [bright, dark]
        return {'temporal': temporal, 'spatial': {times[steps // 2]: [bright, dark]}}
    cam.exposure = exposure_fixed
    if radiance_min is None:
        m = cam.grab(0).mean()
        radiance_min = cam.get_radiance_for(mean=m + (cam.img_max - m) / steps)
    if radiance_max is None:
        radiance_max = cam.get_radiance_for()
    levels = [np.ones(full) * f for f in np.linspace(np.mean(radiance_min), np.mean(radiance_max), steps)]
    t = round(exposure_fixed)
    return {'temporal': {t: levels + [dark]}, 'spatial': {t: [levels[steps // 2], dark]}}


def wrong_points(cam, exposure_min, exposure_max, exposure_fixed, radiance_min, radiance_max, gain, blackref, steps):
    p = s_points(cam, exposure_min, exposure_max, exposure_fixed, radiance_min, radiance_max, None, blackref, steps)
    return {'temporal': p['spatial'], 'spatial': p['spatial']}


# ---------------------------------------------------------------- descriptor files

def s_number(text):
    return float(text.replace(',', '.'))


def s_images(blocks, base):
    images = {'temporal': {}, 'spatial': {}}
    for kind, exposure, photons, names in blocks:
        e = s_number(exposure)
        p = 0.0 if kind == 'd' else s_number(photons)
        files = [os.path.join(base, *parts) for parts in names]
        where = images['temporal' if len(files) == 2 else 'spatial']
        if e in where:
            if p in where[e]:
                raise SyntaxError('repeated')
            where[e][p] = files
        else:
            where[e] = {p: files}
    return images


def wrong_images(blocks, base):
    """a repeated point replaces the one before"""
    images = {'temporal': {}, 'spatial': {}}
    for kind, exposure, photons, names in blocks:
        e = s_number(exposure)
        p = 0.0 if kind == 'd' else s_number(photons)
        where = images['temporal' if len(names) == 2 else 'spatial']
        where.setdefault(e, {})[p] = [os.path.join(base, *parts) for parts in names]
    return images


def s_mean_photons(exposure, radiance, pixel_area, wavelength, f_number):
    return np.round(np.mean(np.sum(s_photons(exposure, radiance, pixel_area, wavelength, f_number), axis=2)), 3)


# ---------------------------------------------------------------- plots

from emva1288.process.routines import FFT1288, GetFrecs


def measured(t):
    return t.temporal['u_y'] - t.temporal['u_ydark']


def ends(x, a, b):
    return (x[a], x[b])


def p_PlotSensitivity(t, ax, ax2):
    x, y = t.temporal['u_p'], measured(t)
    ax.plot(x, y)
    ax.plot(x, t.R * x)
    a, b = t.index_sensitivity_min, t.index_sensitivity_max
    ax.plot(ends(x, a, b), ends(y, a, b))


def p_PlotUyDark(t, ax, ax2):
    ax.plot(t.temporal['texp'], t.temporal['u_ydark'])


def p_PlotPTC(t, ax, ax2):
    x, y = measured(t), t.temporal['s2_y'] - t.temporal['s2_ydark']
    ax.plot(x, y)
    ax.plot(x, t.K * x)
    ax.plot((x[t.index_u_ysat],), (y[t.index_u_ysat],))
    a, b = t.index_sensitivity_min, t.index_sensitivity_max
    ax.plot(ends(x, a, b), ends(y, a, b))


def p_PlotSNR(t, ax, ax2):
    lo, hi = t.u_p_min, t.u_p_sat
    p = np.arange(lo, hi, (hi - lo) / 100)
    s2 = t.temporal['s2_y']
    some = np.nonzero(s2)
    ax.plot(t.temporal['u_p'][some], measured(t)[some] / np.sqrt(s2[some]))
    e = t.QE / 100 * p
    noise = t.sigma_d ** 2 + t.s2q / t.K ** 2 + e
    ax.plot(p, e / np.sqrt(noise))
    ax.plot(p, np.sqrt(p))
    ax.plot(p, e / np.sqrt(noise + t.DSNU1288 ** 2 + (t.PRNU1288 / 100 * e) ** 2))
    ax.axvline(lo, label=r'$\mu_{p.min} = %.1f[p]$' % lo)
    ax.axvline(hi, label=r'$\mu_{p.sat} = %.1f[p]$' % hi)


def p_PlotLinearity(t, ax, ax2):
    x, y, fit = t.temporal['u_p'], measured(t), t.linearity()
    ax.plot(x, y)
    ax.plot(x, fit['fit_slope'] * x + fit['fit_offset'])
    a, b = t.index_linearity_min, t.index_linearity_max
    ax.plot(ends(x, a, b), ends(y, a, b))


def p_PlotDeviationLinearity(t, ax, ax2):
    a, b = t.index_linearity_min, t.index_linearity_max
    x, y = t.temporal['u_p'][a:b + 1], t.linearity()['relative_deviation'][a:b + 1]
    ax.plot(x, y)
    ax.plot(ends(x, 0, -1), ends(y, 0, -1))


def stack(t):
    return t.spatial['sum'] / t.spatial['L'] - t.spatial['sum_dark'] / t.spatial['L_dark']


def prnu_spectrum(t, ax, rotate):
    img = stack(t)
    s = FFT1288(img, rotate=rotate) / np.mean(img)
    ax.plot(GetFrecs(s), np.sqrt(s))
    ax.axhline(t.PRNU1288)
    ax.axhline(100 * np.sqrt(t.sigma_2_y_stack) / np.mean(img))


def dsnu_spectrum(t, ax, rotate):
    s = FFT1288(t.spatial['sum_dark'], rotate=rotate, n=t.spatial['L_dark'])
    ax.plot(GetFrecs(s), np.sqrt(s))
    ax.axhline(t.DSNU1288_DN())
    ax.axhline(np.sqrt(t.sigma_2_y_stack_dark))


def p_PlotHorizontalSpectrogramPRNU(t, ax, ax2):
    prnu_spectrum(t, ax, False)


def p_PlotVerticalSpectrogramPRNU(t, ax, ax2):
    prnu_spectrum(t, ax, True)


def p_PlotHorizontalSpectrogramDSNU(t, ax, ax2):
    dsnu_spectrum(t, ax, False)


def p_PlotVerticalSpectrogramDSNU(t, ax, ax2):
    dsnu_spectrum(t, ax, True)


def histogram(h, ax):
    ax.plot(h['bins'], h['values'])
    ax.plot(h['bins'], h['model'])


def p_PlotLogarithmicHistogramDSNU(t, ax, ax2):
    histogram(t.histogram_DSNU, ax)


def p_PlotLogarithmicHistogramPRNU(t, ax, ax2):
    histogram(t.histogram_PRNU, ax)


def p_PlotAccumulatedLogHistogramDSNU(t, ax, ax2):
    h = t.histogram_DSNU_accumulated
    ax.plot(h['bins'], h['values'])


def p_PlotAccumulatedLogHistogramPRNU(t, ax, ax2):
    h = t.histogram_PRNU_accumulated
    ax.plot(h['bins'], h['values'])


def shown(line):
    """positions and values of the pixels that are not masked"""
    x = np.arange(len(line))
    if isinstance(line, np.ma.MaskedArray):
        keep = [i for i in range(len(line.mask)) if not line.mask[i]]
        return x[keep], line[keep]
    return x, line


def profiles(img, ax, vertical):
    if vertical:
        img = img.T
    middle = img[img.shape[0] // 2, :]
    if isinstance(img, np.ma.MaskedArray) and middle.mask.all():
        middle = img[img.shape[0] // 2 + 1, :]
    for line in (middle, np.min(img, axis=0), np.max(img, axis=0), np.mean(img, axis=0)):
        x, y = shown(line)
        if vertical:
            ax.plot(y, x)
        else:
            ax.plot(x, y)


def p_PlotHorizontalProfile(t, ax, ax2):
    profiles(stack(t), ax, False)
    profiles(t.spatial['sum_dark'] / t.spatial['L_dark'], ax2, False)


def p_PlotVerticalProfile(t, ax, ax2):
    profiles(stack(t), ax, True)
    profiles(t.spatial['sum_dark'] / t.spatial['L_dark'], ax2, True)


def wrong_plot(t, ax, ax2):
    """bright values not corrected"""
    ax.plot(t.temporal['u_p'], t.temporal['u_y'])
    ax.plot(t.temporal['u_p'], t.R * t.temporal['u_p'])
    a, b = t.index_sensitivity_min, t.index_sensitivity_max
    ax.plot(ends(t.temporal['u_p'], a, b), ends(t.temporal['u_y'], a, b))


class FakeTest(object):
    """stands for a result object"""
    def __init__(self, name):
        self.name = name


class FakePlot0(object):
    """stands for a plot class; its drawing calls name the plot and the test"""
    name = 'p0'

    def __init__(self, figure):
        self.figure = figure

    def plot(self, test):
        self.figure.drawn(self.name, test.name)

    def rearrange(self):
        self.figure.rearranged(self.name)


class FakePlot1(FakePlot0):
    name = 'p1'


class FakePlot2(FakePlot0):
    name = 'p2'


# ------------------------------------------------------------------ XML trees

class XElement(object):
    """stands for lxml.etree elements"""
    def __init__(self, tag, text=None):
        self.tag = tag
        self.text = text
        self.tail = None
        self.kids = []
        self.parent = None

    def append(self, child):
        if child.parent is not None:
            child.parent.kids.remove(child)
        child.parent = self
        self.kids.append(child)

    def getchildren(self):
        return list(self.kids)

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)

    def __getitem__(self, k):
        return self.kids[k]


class XTree(object):
    """stands for lxml.etree.ElementTree"""
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root


def x_scalar(v):
    return str(v)


def x_array(a):
    return ' '.join([str(x) for x in a])


def x_rounded(v):
    return '%.3f' % v


# ---- C18: comparison of result files
def x_significant(v, digits):
    """v rounded to the given number of significant digits"""
    if v == 0:
        return 0.
    if not np.isfinite(v):
        return v
    return round(v, digits - 1 - int(np.floor(np.log10(np.abs(v)))))


def x_same(a, b, digits):
    return np.array_equal(x_significant(a, digits), x_significant(b, digits), equal_nan=True)


def x_same_array(a, b, digits):
    f = np.vectorize(lambda v: x_significant(v, digits), otypes=[np.float64])
    return np.array_equal(f(a), f(b), equal_nan=True)


# ---- C27, C28: report
class JEnv(object):
    """stands for jinja2.Environment"""
    def __init__(self, **kw):
        self.options = kw
        self.filters = {}
        self.globals = {}
        self.tests = {}

    def get_template(self, name, parent=None, globals=None):
        return JTemplate(self, name)


class JTemplate(object):
    """stands for a loaded template"""
    def __init__(self, env, name):
        self.env = env
        self.name = name

    def render(self, *args, **kw):
        return ''


def op_id(n):
    return 'OP%d' % (n + 1)


def op_name(op, n):
    return op['name'] or 'OP%d' % (n + 1)


def upload_ref(fname, default):
    if fname:
        return 'upload/' + os.path.basename(fname)
    return 'files/' + default


def fixed_digits(v, n):
    return ('{:.%df}' % n).format(v)


def corrupt(res):
    res.temporal['u_y'][0] = 0
    return res.temporal['u_y']


def remember(res):
    res.remembered = getattr(res, 'remembered', 0) + 1
    return res.remembered


class Grabber:
    def grab(self, radiance):
        return 0


def wrong_key(d):
    return d['temporal']['u_y']


def right_key(d):
    return d['temporal']['u_p']
