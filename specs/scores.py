"""Specifications of the statistics over partial-sum / contingency tables (C01 - C04).

Each is written from the published definition of the score; `t` gives column totals (missing
when the column is absent or has no present cell), `agg` says whether the rows carry
pair-count weighted sums that still have to be divided by the total pair count.
A score defined through other scores uses their reported (rounded) values.
"""
from pydv import spec as S
from pydv.spec import rnd as R, sqrt, log, Missing, Skip

U = 'metcalcpy.util.'


class Stat:
    def __init__(self, prop, module, name, fn, cols, agg=False, domain='counts', absent=()):
        self.prop, self.module, self.name, self.fn, self.cols = prop, U + module, name, fn, cols
        self.agg, self.domain, self.absent = agg, domain, tuple(absent)


ALL = []


def stat(prop, module, name, cols, agg=False, domain='counts'):
    def deco(fn):
        ALL.append(Stat(prop, module, name, fn, cols.split(), agg, domain))
        return fn
    return deco


# ---- C01 contingency tables -----------------------------------------------------------------
CTC = 'fy_oy fy_on fn_oy fn_on total'


def abcd(t):
    """hits, false alarms, misses, correct negatives"""
    return t.c('fy_oy'), t.c('fy_on'), t.c('fn_oy'), t.c('fn_on')


def pody(t): return R(t.c('fy_oy') / (t.c('fy_oy') + t.c('fn_oy')))
def pofd(t): return R(t.c('fy_on') / (t.c('fy_on') + t.c('fn_on')))
def podn(t): return R(t.c('fn_on') / (t.c('fy_on') + t.c('fn_on')))
def baser(t): return R((t.c('fy_oy') + t.c('fn_oy')) / t.c('total'))
def acc(t): return R((t.c('fy_oy') + t.c('fn_on')) / t.c('total'))
def fbias(t): return R((t.c('fy_oy') + t.c('fy_on')) / (t.c('fy_oy') + t.c('fn_oy')))
def fmean(t): return R((t.c('fy_oy') + t.c('fy_on')) / t.c('total'))
def far(t): return R(t.c('fy_on') / (t.c('fy_oy') + t.c('fy_on')))
def csi(t): return R(t.c('fy_oy') / (t.c('fy_oy') + t.c('fy_on') + t.c('fn_oy')))


def gss(t):
    a, b, c, n = t.c('fy_oy'), t.c('fy_on'), t.c('fn_oy'), t.c('total')
    chance = (a + b) * (a + c) / n
    return R((a - chance) / (a + b + c - chance))


def hk(t): return R(pody(t) - pofd(t))


def hss(t):
    a, b, c, d = abcd(t)
    n = t.c('total')
    chance = ((a + b) * (a + c) + (c + d) * (b + d)) / n
    return R((a + d - chance) / (n - chance))


def odds(t):
    h, f = pody(t), pofd(t)
    return R(h * (1 - f) / (f * (1 - h)))


def lodds(t):
    a, b, c, d = abcd(t)
    return R(log(a) + log(d) - log(b) - log(c))


def _lambertw(x):
    from scipy.special import lambertw
    return lambertw(x).real


def bagss(t):
    a, b, c, n = t.c('fy_oy'), t.c('fy_on'), t.c('fn_oy'), t.c('total')
    if a == 0 or c == 0:
        raise Missing()
    o = a + c
    lf = log(o / c)
    ha = o - b / lf * S.uf('lambertw', _lambertw, o / b * lf)
    return R((ha - o * o / n) / (2 * o - ha - o * o / n))


def orss(t):
    a, b, c, d = abcd(t)
    return R((a * d - b * c) / (a * d + b * c))


def odds1(t):
    h, f = pody(t), pofd(t)
    return R((h / (1 - h)) / (f / (1 - f)))


def sedi(t):
    f = t.c('fy_on') / (t.c('fy_on') + t.c('fn_on'))
    h = pody(t)
    return R((log(f) - log(h) - log(1 - f) + log(1 - h)) / (log(f) + log(h) + log(1 - f) + log(1 - h)))


def seds(t):
    a, b, c, n = t.c('fy_oy'), t.c('fy_on'), t.c('fn_oy'), t.c('total')
    return R((log((a + b) / n) + log((a + c) / n)) / log(a / n) - 1)


def edi(t):
    f = t.c('fy_on') / (t.c('fy_on') + t.c('fn_on'))
    h = pody(t)
    return R((log(f) - log(h)) / (log(f) + log(h)))


def eds(t):
    a, c, n = t.c('fy_oy'), t.c('fn_oy'), t.c('total')
    return R(2 * log((a + c) / n) / log(a / n) - 1)


def colsum(*cols):
    def f(t):
        s = t.c(cols[0])
        for c in cols[1:]:
            s = s + t.c(c)
        return R(s)
    return f


for _n, _f, _c in [
        ('baser', baser, 'fy_oy fn_oy total'), ('acc', acc, 'fy_oy fn_on total'), ('fbias', fbias, 'fy_oy fn_oy fy_on'),
        ('fmean', fmean, 'fy_oy fy_on total'), ('pody', pody, 'fy_oy fn_oy'), ('pofd', pofd, 'fy_on fn_on'),
        ('podn', podn, 'fn_on fy_on'), ('far', far, 'fy_on fy_oy'), ('csi', csi, 'fy_oy fy_on fn_oy'),
        ('gss', gss, 'fy_oy fy_on fn_oy total'), ('hk', hk, 'fy_oy fn_oy fy_on fn_on'), ('hss', hss, CTC),
        ('odds', odds, 'fy_oy fn_oy fy_on fn_on')]:
    stat('C01', 'ctc_statistics', 'calculate_' + _n, _c)(_f)
    stat('C01', 'nbrctc_statistics', 'calculate_nbr_' + _n, _c)(_f)
for _n, _f, _c in [
        ('calculate_lodds', lodds, 'fy_oy fn_oy fy_on fn_on'), ('calculate_bagss', bagss, 'fy_oy fy_on fn_oy total'),
        ('calculate_orss', orss, 'fy_oy fn_oy fy_on fn_on'), ('calculate_odds1', odds1, 'fy_oy fn_oy fy_on fn_on'),
        ('calculate_sedi', sedi, 'fy_oy fn_oy fy_on fn_on'), ('calculate_seds', seds, 'fy_oy fn_oy fy_on total'),
        ('calculate_edi', edi, 'fy_oy fn_oy fy_on fn_on total'), ('calculate_eds', eds, 'fy_oy fn_oy total'),
        ('pod_yes', pody, 'fy_oy fn_oy'), ('pod_no', podn, 'fn_on fy_on'),
        ('calculate_ctc_total', colsum('total'), 'total'), ('calculate_cts_total', colsum('total'), 'total'),
        ('calculate_ctc_fn_on', colsum('fn_on'), 'fn_on'), ('calculate_ctc_fn_oy', colsum('fn_oy'), 'fn_oy'),
        ('calculate_ctc_fy_on', colsum('fy_on'), 'fy_on'), ('calculate_ctc_fy_oy', colsum('fy_oy'), 'fy_oy'),
        ('calculate_ctc_oy', colsum('fy_oy', 'fn_oy'), 'fy_oy fn_oy'), ('calculate_ctc_on', colsum('fy_on', 'fn_on'), 'fy_on fn_on'),
        ('calculate_ctc_fy', colsum('fy_oy', 'fy_on'), 'fy_oy fy_on'), ('calculate_ctc_fn', colsum('fn_oy', 'fn_on'), 'fn_oy fn_on')]:
    stat('C01', 'ctc_statistics', _n, _c)(_f)
stat('C01', 'nbrctc_statistics', 'calculate_nbr_ctc_total', 'total')(colsum('total'))


# ---- C02 continuous ----------------------------------------------------------------------------
class M:
    """Means: column totals divided by the pair count when the rows are pair-count weighted."""

    def __init__(self, t, agg):
        self.t, self.agg = t, agg
        self.n = t.c('total') if agg else None

    def __call__(self, col):
        s = self.t.c(col)
        return s / self.n if self.agg else s


def mean_of(col):
    return lambda t, agg: R(M(t, agg)(col))


def stddev(mean, meansq, n):
    """Sample standard deviation of n pairs from mean and mean square."""
    if n < 1:
        raise Missing()
    v = (meansq * n - mean * n * (mean * n) / n) / (n - 1)
    if v < 0:
        raise Missing()
    return sqrt(v)


def fstdev(t, agg):
    m, n = M(t, agg), t.c('total')
    return R(stddev(m('fbar'), m('ffbar'), n))


def ostdev(t, agg):
    m, n = M(t, agg), t.c('total')
    return R(stddev(m('obar'), m('oobar'), n))


def mbias(t, agg):
    m = M(t, agg)
    return R(m('fbar') / m('obar'))


def corr(f, o, ff, oo, fo):
    vf, vo = ff - f * f, oo - o * o
    if vf < 0 and vo < 0:
        raise Skip()                # not the moments of any sample
    if vf * vo <= 0:
        raise Missing()
    r = (fo - f * o) / sqrt(vf * vo)
    if r > 1:
        raise Missing()
    return r


def pr_corr(t, agg):
    m = M(t, agg)
    n = t.c('total')
    if n == 0:
        raise Missing()
    return R(corr(m('fbar'), m('obar'), m('ffbar'), m('oobar'), m('fobar')))


def fe(t, agg):
    m = M(t, agg)
    return R((m('fbar') - m('obar')) / m('fbar'))


def me(t, agg):
    m = M(t, agg)
    return R(m('fbar') - m('obar'))


def me2(t, agg):
    x = me(t, agg)
    return R(x * x)


def mse(t, agg):
    m = M(t, agg)
    return R(m('ffbar') + m('oobar') - 2 * m('fobar'))


def msess(t, agg):
    s = ostdev(t, agg)
    return R(1 - mse(t, agg) / (s * s))


def rmse(t, agg): return R(sqrt(mse(t, agg)))


def si(t, agg): return R(rmse(t, agg) / R(M(t, agg)('obar')))


def estdev(t, agg):
    return R(stddev(me(t, agg), mse(t, agg), t.c('total')))


def bcmse(t, agg):
    x = me(t, agg)
    return R(mse(t, agg) - x * x)


def bcrmse(t, agg): return R(sqrt(bcmse(t, agg)))


def anom(f, o, ff, oo, fo):
    def fn(t, agg):
        m = M(t, agg)
        return R(corr(m(f), m(o), m(ff), m(oo), m(fo)))
    return fn


anom_corr = anom('fabar', 'oabar', 'ffabar', 'ooabar', 'foabar')


def clip1(r):
    if r > 1:
        return 1
    if r < -1:
        return -1
    return r


def anom_corr_raw(t, agg):
    m = M(t, agg)
    v = m('ffabar') * m('ooabar')
    if v < 0:
        raise Missing()
    return R(clip1(m('foabar') / sqrt(v)))


def rootmean(col):
    return lambda t, agg: R(sqrt(M(t, agg)(col)))


def ratio100(a, b):
    def f(t, agg):
        m = M(t, agg)
        return R(100 * m(a) / m(b))
    return f


def reg(prop, module, rows, agg=True, domain='sums'):
    for n, f, c in rows:
        stat(prop, module, n, c if not agg else c + ' total' if 'total' not in c.split() else c, agg, domain)(f)


SL = 'fbar obar fobar ffbar oobar mae total'
_sl = [('fbar', mean_of('fbar'), 'fbar'), ('obar', mean_of('obar'), 'obar'), ('fstdev', fstdev, 'fbar ffbar total'),
       ('ostdev', ostdev, 'obar oobar total'), ('fobar', mean_of('fobar'), 'fobar'), ('ffbar', mean_of('ffbar'), 'ffbar'),
       ('oobar', mean_of('oobar'), 'oobar'), ('mae', mean_of('mae'), 'mae'), ('mbias', mbias, 'fbar obar'),
       ('pr_corr', pr_corr, 'fbar obar fobar ffbar oobar total'), ('fe', fe, 'fbar obar'), ('me', me, 'fbar obar'),
       ('me2', me2, 'fbar obar'), ('mse', mse, 'ffbar oobar fobar'), ('msess', msess, 'obar oobar ffbar fobar total'),
       ('rmse', rmse, 'ffbar oobar fobar'), ('si', si, 'ffbar oobar fobar obar'), ('estdev', estdev, 'fbar obar fobar ffbar oobar total'),
       ('bcmse', bcmse, 'fbar obar fobar ffbar oobar'), ('bcrmse', bcrmse, 'fbar obar fobar ffbar oobar')]
reg('C02', 'sl1l2_statistics', [('calculate_' + n, f, c) for n, f, c in _sl])
reg('C02', 'sl1l2_statistics', [('calculate_sl1l2_total', colsum('total'), 'total'), ('calculate_sal1l2_total', colsum('total'), 'total')], agg=False)
SAL = 'fabar oabar foabar ffabar ooabar'
reg('C02', 'sal1l2_statistics', [('calculate_anom_corr', anom_corr, SAL), ('calculate_anom_corr_raw', anom_corr_raw, 'ffabar ooabar foabar'),
                                 ('calculate_rmsfa', rootmean('ffabar'), 'ffabar'), ('calculate_rmsoa', rootmean('ooabar'), 'ooabar')])
reg('C02', 'grad_statistics', [('calculate_fgbar', mean_of('fgbar'), 'fgbar'), ('calculate_ogbar', mean_of('ogbar'), 'ogbar'),
                               ('calculate_mgbar', mean_of('mgbar'), 'mgbar'), ('calculate_egbar', mean_of('egbar'), 'egbar'),
                               ('calculate_s1', ratio100('egbar', 'mgbar'), 'egbar mgbar'), ('calculate_s1_og', ratio100('egbar', 'ogbar'), 'egbar ogbar'),
                               ('calculate_fgog_ratio', ratio100('fgbar', 'ogbar'), 'fgbar ogbar')])
reg('C02', 'grad_statistics', [('calculate_grad_total', colsum('total'), 'total')], agg=False)


# ---- C03 wind vectors -----------------------------------------------------------------------------
def speed(u, v): return sqrt(u * u + v * v)


CALM = 0.00001


def direction(u, v):
    """Angle of (u, v) clockwise from north in degrees, in [0, 360)."""
    if abs(u) < CALM and abs(v) < CALM:
        raise Missing()
    d = S.atan2(u, v) * 180 / S.pi()
    return S.fmod(d, 360)


def vl_bias(t, agg):
    m = M(t, agg)
    return R(sqrt(m('uvffbar')) - sqrt(m('uvoobar')))


def var_of(sq, mean):
    def f(t, agg):
        m = M(t, agg)
        x = m(mean)
        return R(m(sq) - x * x)
    return f


fvar, ovar = var_of('uvffbar', 'f_speed_bar'), var_of('uvoobar', 'o_speed_bar')


def spd(u, v):
    def f(t, agg):
        m = M(t, agg)
        return R(speed(m(u), m(v)))
    return f


fspd, ospd = spd('ufbar', 'vfbar'), spd('uobar', 'vobar')


def speed_err(t, agg): return R(fspd(t, agg) - ospd(t, agg))


def msve(t, agg):
    m = M(t, agg)
    x = m('uvffbar') - 2 * m('uvfobar') + m('uvoobar')
    if x < 0:
        raise Missing()
    return R(x)


def rmsve(t, agg): return R(sqrt(msve(t, agg)))


UV = 'ufbar vfbar uobar vobar'
reg('C03', 'vl1l2_statistics', [('calculate_vl1l2_bias', vl_bias, 'uvffbar uvoobar'), ('calculate_vl1l2_fvar', fvar, 'uvffbar f_speed_bar'),
                                ('calculate_vl1l2_ovar', ovar, 'uvoobar o_speed_bar'), ('calculate_vl1l2_fspd', fspd, 'ufbar vfbar'),
                                ('calculate_vl1l2_ospd', ospd, 'uobar vobar'), ('calculate_vl1l2_speed_err', speed_err, UV),
                                ('calculate_vl1l2_msve', msve, 'uvffbar uvfobar uvoobar'), ('calculate_vl1l2_rmsve', rmsve, 'uvffbar uvfobar uvoobar')])
reg('C03', 'vl1l2_statistics', [('calculate_vl1l2_total', colsum('total'), 'total')], agg=False)


def wind_corr(t, agg):
    m = M(t, agg)
    uf, vf, uo, vo = m('ufabar'), m('vfabar'), m('uoabar'), m('voabar')
    return R((m('uvfoabar') - uf * uo - vf * vo) / (sqrt(m('uvffabar') - uf * uf - vf * vf) * sqrt(m('uvooabar') - uo * uo - vo * vo)))


reg('C03', 'val1l2_statistics', [('calculate_val1l2_anom_corr', wind_corr, 'ufabar vfabar uoabar voabar uvfoabar uvffabar uvooabar')])
reg('C03', 'val1l2_statistics', [('calculate_val1l2_total', colsum('total'), 'total')], agg=False)


def fdir(t, agg):
    m = M(t, agg)
    return R(direction(-m('ufbar'), -m('vfbar')))


def odir(t, agg):
    m = M(t, agg)
    return R(direction(-m('uobar'), -m('vobar')))


def vdiff_speed(t, agg):
    m = M(t, agg)
    return R(speed(m('ufbar') - m('uobar'), m('vfbar') - m('vobar')))


def vdiff_dir(t, agg):
    m = M(t, agg)
    return R(direction(-(m('ufbar') - m('uobar')), -(m('vfbar') - m('vobar'))))


def dir_err(t, agg):
    """Signed angle from the observed to the forecast mean wind vector (degrees, counter-clockwise positive)."""
    m = M(t, agg)
    fl, ol = fspd(t, agg), ospd(t, agg)
    uf, vf, uo, vo = m('ufbar') / fl, m('vfbar') / fl, m('uobar') / ol, m('vobar') / ol
    return R(S.atan2(vf * uo - uf * vo, uf * uo + vf * vo) * 180 / S.pi())


def vcnt_anom_corr(t, agg):
    m = M(t, agg)
    if agg and m.n == 0:
        raise Skip()                # no pairs, so no weighted sums either
    f, o = m('fa_speed_bar'), m('oa_speed_bar')
    vf, vo = m('uvffabar') - f * f, m('uvooabar') - o * o
    if vf < 0 and vo < 0:
        raise Skip()
    return clip1((m('uvfoabar') - f * o) / sqrt(vf * vo))          # reported unrounded


def vcnt_anom_corr_uncntr(t, agg):
    a, b, c = t.c('uvffabar'), t.c('uvooabar'), t.c('uvfoabar')
    return clip1(c / sqrt(a * b))


reg('C03', 'vcnt_statistics', [
    ('calculate_vcnt_fbar', mean_of('f_speed_bar'), 'f_speed_bar'), ('calculate_vcnt_obar', mean_of('o_speed_bar'), 'o_speed_bar'),
    ('calculate_vcnt_fs_rms', rootmean('uvffbar'), 'uvffbar'), ('calculate_vcnt_os_rms', rootmean('uvoobar'), 'uvoobar'),
    ('calculate_vcnt_msve', msve, 'uvffbar uvfobar uvoobar'), ('calculate_vcnt_rmsve', rmsve, 'uvffbar uvfobar uvoobar'),
    ('calculate_vcnt_fstdev', lambda t, agg: R(sqrt(fvar(t, agg))), 'uvffbar f_speed_bar'),
    ('calculate_vcnt_ostdev', lambda t, agg: R(sqrt(ovar(t, agg))), 'uvoobar o_speed_bar'),
    ('calculate_vcnt_fdir', fdir, 'ufbar vfbar'), ('calculate_vcnt_odir', odir, 'uobar vobar'),
    ('calculate_vcnt_fbar_speed', fspd, 'ufbar vfbar'), ('calculate_vcnt_obar_speed', ospd, 'uobar vobar'),
    ('calculate_vcnt_vdiff_speed', vdiff_speed, UV), ('calculate_vcnt_vdiff_dir', vdiff_dir, UV),
    ('calculate_vcnt_speed_err', speed_err, UV), ('calculate_vcnt_speed_abserr', lambda t, agg: R(abs(speed_err(t, agg))), UV),
    ('calculate_vcnt_dir_err', dir_err, UV), ('calculate_vcnt_dir_abser', lambda t, agg: R(abs(dir_err(t, agg))), UV),
    ('calculate_vcnt_anom_corr', vcnt_anom_corr, 'fa_speed_bar oa_speed_bar uvffabar uvfoabar uvooabar'),
    ('calculate_vcnt_anom_corr_uncntr', vcnt_anom_corr_uncntr, 'uvffabar uvfoabar uvooabar')])


# ---- C04 ensembles and neighbourhoods ---------------------------------------------------------------
def skill(a, b):
    def f(t, agg):
        m = M(t, agg)
        return R(1 - m(a) / m(b))
    return f


def root_of_rounded(col):
    return lambda t, agg: R(sqrt(R(M(t, agg)(col))))


def cond_me(col, n):
    return lambda t, agg: R(t.c(col) / t.c(n))


def bias_ratio(t, agg):
    return R(cond_me('me_ge_obs', 'n_ge_obs')(t, agg) / abs(cond_me('me_lt_obs', 'n_lt_obs')(t, agg)))


_e = [(n, mean_of(n), n) for n in ('crps', 'crpscl', 'crps_emp', 'crps_emp_fair', 'spread_md', 'crpscl_emp', 'ign', 'me', 'mae', 'mae_oerr', 'me_oerr')]
_e += [('crpss', skill('crps', 'crpscl'), 'crps crpscl'), ('crpss_emp', skill('crps_emp', 'crpscl_emp'), 'crps_emp crpscl_emp'),
       ('rmse', root_of_rounded('mse'), 'mse'), ('spread', root_of_rounded('variance'), 'variance'),
       ('rmse_oerr', root_of_rounded('mse_oerr'), 'mse_oerr'), ('spread_oerr', root_of_rounded('variance_oerr'), 'variance_oerr'),
       ('spread_plus_oerr', root_of_rounded('variance_plus_oerr'), 'variance_plus_oerr'),
       ('n_ge_obs', lambda t, agg: R(t.c('n_ge_obs')), 'n_ge_obs'), ('n_lt_obs', lambda t, agg: R(t.c('n_lt_obs')), 'n_lt_obs'),
       ('me_ge_obs', cond_me('me_ge_obs', 'n_ge_obs'), 'me_ge_obs n_ge_obs'), ('me_lt_obs', cond_me('me_lt_obs', 'n_lt_obs'), 'me_lt_obs n_lt_obs'),
       ('bias_ratio', bias_ratio, 'me_ge_obs n_ge_obs me_lt_obs n_lt_obs')]
reg('C04', 'ecnt_statistics', [('calculate_ecnt_' + n, f, c) for n, f, c in _e])
reg('C04', 'ecnt_statistics', [('calculate_ecnt_total', colsum('total'), 'total')], agg=False)

_ss = {'anom_corr': anom('fbar', 'obar', 'ffbar', 'oobar', 'fobar')}
reg('C04', 'ssvar_statistics', [('calculate_ssvar_' + n, f, c) for n, f, c in _sl
                                if n in ('fbar', 'fstdev', 'obar', 'ostdev', 'pr_corr', 'me', 'estdev', 'mse', 'bcmse', 'bcrmse', 'rmse', 'me2', 'msess')])
reg('C04', 'ssvar_statistics', [('calculate_ssvar_anom_corr', _ss['anom_corr'], 'fbar obar fobar ffbar oobar'),
                                ('calculate_ssvar_spread', rootmean('var_mean'), 'var_mean')])
reg('C04', 'ssvar_statistics', [('calculate_ssvar_total', colsum('total_orig'), 'total_orig')], agg=False)
reg('C04', 'rps_statistics', [('calculate_rps', mean_of('rps'), 'rps'), ('calculate_rps_comp', mean_of('rps_comp'), 'rps_comp'),
                              ('calculate_rpss', skill('rps', 'rps_climo'), 'rps rps_climo')])
reg('C04', 'rps_statistics', [('calculate_rps_total', colsum('total'), 'total')], agg=False)


def afss(t, agg):
    m = M(t, agg)
    f, o = m('f_rate'), m('o_rate')
    return R(2 * f * o / (f * f + o * o))


reg('C04', 'nbrcnt_statistics', [('calculate_nbr_fbs', mean_of('fbs'), 'fbs'), ('calculate_nbr_fss', skill('fbs', 'fss'), 'fbs fss'),
                                 ('calculate_nbr_afss', afss, 'f_rate o_rate'),
                                 ('calculate_nbr_ufss', lambda t, agg: R((1 + M(t, agg)('o_rate')) / 2), 'o_rate'),
                                 ('calculate_nbr_f_rate', mean_of('f_rate'), 'f_rate'), ('calculate_nbr_o_rate', mean_of('o_rate'), 'o_rate')])
reg('C04', 'nbrcnt_statistics', [('calculate_nbr_cnt_total', colsum('total'), 'total')], agg=False)
for _s in ALL:
    if _s.name == 'calculate_ssvar_anom_corr':
        _s.absent = ('fabar', 'oabar', 'foabar', 'ffabar', 'ooabar')
