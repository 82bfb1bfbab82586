"""Assumptions left unchecked, per property, written into the evidence."""
COMMON = [
    'float arithmetic is treated as real arithmetic: rounding, overflow, NaN and infinity are outside the value contracts (frame obligations of C24 do not depend on values)',
    'numpy, scipy and astropy primitives behave as modelled (vcgen/npmodel.py, vcgen/fitsmodel.py); tools/modeltest.py compares the numpy model with the real library on concrete programs',
    'warnings, printing and wall-clock behaviour are not modelled',
]
NNLS = 'scipy.optimize.nnls(A, b) returns a minimiser of |Ax-b| over x >= 0 (a function of A and b), or raises RuntimeError when its iterations run out'
AMAT = 'the interpolator of a design matrix is a function of the redshift (linear between grid points for interp1d), raises ValueError outside the grid; both class methods are checked against it in C18, C21 and C25'
DM = 'astropy cosmology: distmod(z) is a function of z (one value per element); astropy units mag'
SOLAR = 'the solar magnitude of a response is a number or None, fixed while the call runs'
FS = 'file names are at most 200 characters and the file system does not change during a call'
FITSF = 'astropy.io.fits returns what was written (byte order, header cards and compression are not modelled); float32 columns hold values exactly; strings at most 200 characters, without trailing blanks'
CUBIC = ('the cubic interpolant of scipy.interpolate.interp1d is a function of its samples, linear in the values, equal to them at the sample points, '
         'and the fill value outside; its values between samples are uninterpreted')
ASSUMPTIONS = {
    'C01': [NNLS, AMAT, 'inverse variances are nonnegative (precondition)'],
    'C02': [NNLS, AMAT, DM, SOLAR, 'at least one object in an array call'],
    'C03': [AMAT, '1 + band_shift is not zero'],
    'C04': [AMAT, 'the logarithm is uninterpreted outside positive arguments'],
    'C05': [AMAT, DM], 'C06': [AMAT, DM],
    'C07': [AMAT, DM, 'distances are positive'],
    'C08': [DM, 'template values are finite; ratios are compared only where the denominator is not zero'],
    'C09': [AMAT, DM, SOLAR],
    'C10': [NNLS, AMAT, 'numpy.random.normal returns arbitrary values of the requested size (a fresh symbol per call and position); that they are normal and independent is trusted'],
    'C11': [AMAT, DM, SOLAR, 'at least one realisation'],
    'C12': ['known finding C12-absmag_mc-double-correction (known-findings.txt)'],
    'C13': ['numpy sinh, cosh, log by their defining exponential identities', 'magnitude errors are not zero where inverse variances are compared'],
    'C14': ['measurements whose flux is zero and whose inverse variance is positive have an infinite fractional error (division by zero gives infinity): such bands are left to the concrete stand-in',
            'floors are nonnegative'],
    'C15': ['effective wavelengths of loaded responses are numbers other than zero', 'the registry is a map from names to responses (C20)'],
    'C16': [CUBIC, 'wavelengths of spectrum and response strictly increase and are positive (precondition)', 'the integral of the AB reference over the response is not zero'],
    'C17': [CUBIC, '1 + redshift is not zero'],
    'C18': ['Response.project by its contract (own obligations in C16): a function of the response, the spectrum wavelengths and the fluxes of that spectrum alone',
            'the number of redshifts is at least two'],
    'C19': [CUBIC, 'scipy.optimize.brentq returns a root inside the bracket when the values at the ends have opposite sign (continuity of the interpolant)',
            'wavelengths are distinct and positive, the maximum of the curve is positive (preconditions)', 'the table reader returns the columns named in the file'],
    'C20': [FS, 'which files exist and parse are arbitrary but fixed predicates of the name', 'one thread'],
    'C21': [FITSF, FS, AMAT], 'C22': [FITSF, FS],
    'C23': ['the class or message of the exception is not part of the property'],
    'C24': ['numpy functions write only to their out arguments and to assigned slices, and return views exactly where modelled (basic slices, reshape, transpose, squeeze, asarray of the same dtype)'],
    'C25': ['Template.__init__ by its contract (C22), response loading by its contract (C20)', 'number of redshifts at least two'],
    'C26': ['every word of the file parses as a number and model numbers as integers (precondition)', 'the bundled lcbsun.ori and lcbvega.ori hold one model each (checked on the real files by the stand-in)',
            'Response.project by its contract (C16)'],
}
LEVELNOTE = {}
