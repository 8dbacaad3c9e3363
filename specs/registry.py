"""Which module holds the contracts of which property."""
MODULES = {'C01': 'specs.tables', 'C02': 'specs.tables', 'C03': 'specs.tables', 'C04': 'specs.tables',
           'C05': 'specs.prob', 'C06': 'specs.modes', 'C07': 'specs.aggregate', 'C08': 'specs.total', 'C09': 'specs.total', 'C10': 'specs.points', 'C11': 'specs.equalize', 'C12': 'specs.boot', 'C13': 'specs.curves', 'C14': 'specs.helpers', 'C15': 'specs.tost', 'C16': 'specs.score_card', 'C17': 'specs.series', 'C18': 'specs.eclv', 'C19': 'specs.columns', 'C20': 'specs.fields', 'C22': 'specs.zonal', 'C23': 'specs.spectra', 'C24': 'specs.texts', 'C21': 'specs.fields', 'C25': 'specs.validate', 'C26': 'specs.mjo', 'C27': 'specs.regimes', 'C28': 'specs.regimes', 'C29': 'specs.dispersion', 'C30': 'specs.waveact', 'C31': 'specs.enso'}

TRUSTED = ['CPython executing the extracted source on symbolic proxies (pydv/values.py, pydv/world.py)',
           'contracts of numpy / math / warnings / statistics / scipy operations (pydv/models.py)',
           'contracts of pandas frame operations; row order not represented (pydv/frames.py)',
           'rational-function normaliser (pydv/terms.py)', 'z3', 'cvc5',
           'floating point numbers treated as mathematical reals']
