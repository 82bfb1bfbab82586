"""writes properties.jsonl (one place to edit statements)"""
import json, os
K='src/kcorrect/kcorrect.py'; F='src/kcorrect/fitter.py'; R='src/kcorrect/response.py'; T='src/kcorrect/template.py'; U='src/kcorrect/utils.py'
P=[]
def p(id,title,statement,text,why,files,mech,over=('inputs',)):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p('C01','Template fit is the nonnegative inverse-variance-weighted optimum',
 'For an object whose redshift lies in the grid, fitting returns nonnegative coefficients c that minimise sum_b ivar_b (maggies_b - sum_t A_bt(z) c_t)^2 over all nonnegative c, where A(z) is the design matrix interpolated at that redshift. Bands with zero inverse variance have no influence on the result, and an object outside the redshift grid gets all-zero coefficients instead of an error. If the solver reports its default iteration limit, the same problem is solved again with a larger limit rather than failing.',
 'every redshift, every vector of maggies, every nonnegative ivar vector, every number of bands and templates',
 'Tests fit fluxes that the templates themselves generate, with unit ivar and in-range redshifts; optimality, weights, zero weights and the fallback are never exercised.',
 [F],[('single-object fit','Fitter._fit_coeffs'),('input handling','Fitter._process_inputs'),('entry point','Fitter.fit_coeffs')])
p('C02','Objects in a batch are independent and shapes follow the input',
 'For fitting, reconstruction, K-corrections, absolute magnitudes and derived quantities, row i of a call with an array of redshifts equals the scalar call on object i alone. A one-element redshift array gives outputs with a leading axis of length one, a scalar redshift gives outputs without that axis, and this also holds for objects with one band.',
 'every batch length including one, every object content, every position in the batch',
 'Tests compare a few batches of good objects; rows that mix failed, zero-coefficient, out-of-range or masked objects are never compared with their scalar calls.',
 [F,K],[('batch loop','Fitter.fit_coeffs'),('shape rules','Fitter._process_inputs'),('array branches','Fitter._reconstruct, Kcorrect.kcorrect, Kcorrect.absmag, Kcorrect.derived')])
p('C03','Reconstructed maggies are the linear template model, with band shift',
 'Reconstructed maggies in band b are sum_t A_bt((1+z)(1+s)-1) c_t / (1+s) for redshift z, coefficients c and band shift s, using the input bands for reconstruct and the output bands for reconstruct_out. They are linear in the coefficients. A shifted redshift outside the grid raises ValueError for scalar and array input alike.',
 'every redshift, band shift, coefficient vector and batch',
 'Tests reconstruct single templates at unshifted redshifts and use the result only to feed the fit.',
 [F,K],[('model evaluation','Fitter._reconstruct'),('public entry points','Fitter.reconstruct, Kcorrect.reconstruct_out')])
p('C04','K-corrections follow their definition for every mapping and band shift',
 'The K-correction of output band j is -2.5 log10 of the ratio of the reconstructed maggies of its mapped input band at the object redshift to the reconstructed maggies of the output band at redshift zero with the requested band shift. An object whose coefficients are all zero gets K-correction exactly zero. The result does not change when all coefficients of the object are multiplied by one positive factor.',
 'every redshift, coefficient vector, band shift, choice of output bands and response mapping',
 'Tests use the identity mapping at band shift zero for fitted objects, mostly checking finiteness or a single value.',
 [K],[('K-correction','Kcorrect.kcorrect'),('map from output to input bands','Kcorrect.__init__ (imap)')])
p('C05','Absolute magnitude is apparent minus distance modulus minus K',
 'For each output band whose mapped input band has positive flux and positive inverse variance, the absolute magnitude is -2.5 log10(AB flux) - DM - K with K the K-correction for the same coefficients and band shift and DM the distance modulus. Every other entry is exactly -9999. Input band data are looked up through the response mapping, per object.',
 'every flux and ivar sign pattern, redshift, mapping, band shift, batch',
 'Tests check a few objects where all bands are good, with the identity mapping and AB input.',
 [K],[('absolute magnitudes','Kcorrect.absmag'),('distance modulus','Kcorrect.absmag via the cosmology object')])
p('C06','Reconstructed and limiting absolute magnitudes and the order of returns',
 'When requested, the reconstructed absolute magnitude of an output band is -2.5 log10 of the model flux in that output band at redshift zero with the band shift, minus DM, and -9999 where the model flux is not positive. When requested, the limit is -2.5 log10(1/sqrt(ivar)) - DM - K of the mapped input band for objects with positive ivar and positive coefficients, and -9999 otherwise. Optional results follow the absolute magnitudes in the order reconstructed, limit, K-correction, and each appears exactly when requested.',
 'every combination of the three flags, every flux and ivar pattern, mapping and band shift',
 'Tests use identity mapping and band shift zero, where several different formulas agree, and two of the eight flag combinations.',
 [K],[('optional outputs','Kcorrect.absmag')])
p('C07','An explicit distance replaces the cosmological one everywhere',
 'When a luminosity distance d in Mpc is given, absolute magnitudes use DM = 5 log10(d / 1e-5) and derived masses scale with (d / 1e-5)^2, whatever the cosmology and redshift; when none is given, the distance modulus of the configured cosmology at the redshift is used. Supplying the distance that the cosmology gives reproduces the default result for absolute magnitudes, masses and mass-to-light ratios, for scalar and array input.',
 'every distance, redshift, cosmology object, scalar and array input',
 'No test passes a distance or a non-default cosmology.',
 [K],[('absolute magnitudes','Kcorrect.absmag'),('derived quantities','Kcorrect.derived')])
p('C08','Derived masses, star-formation ratios and metallicity',
 'With g = 10^(0.4 DM), the stellar mass and integrated star formation are g times the coefficient-weighted sums of the template values. The metallicity is the mass-weighted mean of the template metallicities, and b50, b300 and b1000 are the coefficient-weighted recent star formation divided by the coefficient-weighted integrated star formation. Metallicity and the b ratios do not depend on distance and are exactly zero for an object with no remaining stellar mass.',
 'every coefficient vector, redshift, distance, batch mixing zero and nonzero objects',
 'The tests call derived once per mode and check the mass-to-light ratio against one number.',
 [K],[('derived quantities','Kcorrect.derived')])
p('C09','Mass-to-light ratios use each output band and its own solar magnitude',
 'The mass-to-light ratio in output band j is the remaining mass divided by the luminosity in solar units: the model flux in that band at redshift zero with the band shift divided by 10^(-0.4 (M_sun,j + DM)), and zero where the model flux is not positive. If a band has no solar magnitude, the ratio is per maggy at the object distance (solar term 10^(-0.4 DM)). The result has one entry per output band, also when the number of output bands differs from the number of input bands.',
 'every coefficient vector, list of output bands, band shift, distance, batch',
 'Tests use output bands equal to the input bands, all with solar magnitudes.',
 [K],[('mass-to-light','Kcorrect.derived'),('solar magnitudes','Response.set_solar_magnitude')])
p('C10','Monte Carlo fits perturb only measured bands with their own errors',
 'With mc > 0, realisation m of the maggies equals the AB maggies plus 1/sqrt(ivar) times an independent standard normal draw in each band with positive ivar, and the AB maggies unchanged in the other bands. Realisation m of the coefficients is the nonnegative weighted fit of realisation m, the unperturbed coefficients equal the mc = 0 fit, and the outputs have shapes [templates, mc] and [bands, mc] with a leading object axis for array redshifts. An object outside the redshift grid yields zero coefficients in every realisation, in outputs of the usual shapes, instead of an error.',
 'every mc count, ivar pattern, batch length and random stream',
 'No test uses the Monte Carlo mode.',
 [F],[('realisations','Fitter._fit_coeffs'),('shape handling','Fitter.fit_coeffs')],('inputs','histories'))
p('C11','Monte Carlo propagation equals one ordinary call per realisation',
 'For every realisation m, entry m of the Monte Carlo absolute magnitudes (and of the reconstructed magnitudes and K-corrections when requested) equals the ordinary call on the maggies and coefficients of realisation m with the same ivar, redshift, band shift and distance. The same holds for every entry of the Monte Carlo derived quantities. The outputs carry one extra trailing axis of length mc and one entry per output band.',
 'every mc count, flag combination, band shift, distance, scalar and array input',
 'No test calls the Monte Carlo propagation.',
 [K],[('absolute magnitudes','Kcorrect.absmag_mc'),('derived quantities','Kcorrect.derived_mc')])
p('C12','AB correction shifts magnitudes by the stated offsets and is applied once',
 'The SDSS correction multiplies flux b by 10^(-0.4 o_b) and divides its ivar by the square of that factor for offsets o = (-0.036, 0.012, 0.010, 0.028, 0.040) unless others are given, so signal-to-noise is unchanged, for one object or any stack of them. The GALEX/SDSS/2MASS class corrects only its five SDSS bands, with or without ivar, and the base class corrects nothing. Fitting and absolute magnitudes apply the correction exactly once, and only if abcorrect is set.',
 'every flux and ivar, one or more dimensions, every class, both abcorrect settings',
 'Tests check shapes or one object; no test compares signal-to-noise, the untouched bands, or the effect of abcorrect on fits and magnitudes.',
 [U,K,F],[('SDSS offsets','utils.sdss_ab_correct'),('class hooks','Fitter.to_ab, KcorrectSDSS.to_ab, KcorrectGST.to_ab'),('single application','Fitter._process_inputs')])
p('C13','SDSS asinh magnitudes convert to extinction-corrected maggies',
 'Maggies are 2 b sinh(-ln b - 0.4 ln(10) m) 10^(0.4 A) with the SDSS softening b of the band, magnitude m and extinction A (zero if not given). The inverse variance is that of first-order error propagation through this conversion: 1 / (0.8 ln(10) b cosh(-ln b - 0.4 ln(10) m) 10^(0.4 A) sigma)^2. It holds for single objects and any stack of them, and fitting asinh magnitudes equals fitting the converted maggies and ivar.',
 'every magnitude (negative flux included), error, extinction and array shape ending in five bands',
 'Tests use one magnitude set without comparing the error propagation.',
 [U,K],[('conversion','utils.sdss_asinh_to_maggies'),('fit of asinh magnitudes','KcorrectSDSS.fit_coeffs_asinh')])
p('C14','Error floors only lower the inverse variance, to the stated fraction',
 'For each measurement with positive ivar whose fractional error is below the floor of its band, the returned ivar is 1 / (|maggies| floor)^2. Every other returned value equals the input ivar, including zero and negative ones. The rule is the same for single objects and [objects, bands] stacks, and neither input array is changed.',
 'every flux sign, ivar pattern, floor vector, one or two dimensions',
 'No test covers error floors.',
 [U],[('error floor','utils.error_floor')])
p('C15','Conversion of maggies to flux per unit wavelength',
 'The AB reference spectrum is 3631 Jy expressed per Angstrom: 3.631e-2 * 2.99792 / wavelength^2. Converting maggies multiplies band b by the reference at the effective wavelength of its response and divides its ivar by the square of the same factor, so signal-to-noise is unchanged. The wavelengths returned are the effective wavelengths of the given responses in the given order, for single objects and stacks, with and without ivar.',
 'every list of responses in any order, fluxes, ivars, one or two dimensions',
 'No test covers this conversion.',
 [U],[('AB spectrum','utils.sed_ab'),('conversion','utils.maggies2flambda')])
p('C16','Band projection is the photon-weighted flux ratio to the AB source',
 'The projection of a spectrum on a response is the ratio of the trapezoidal integrals of f_lambda R lambda and of f_AB R lambda over the union of the response grid and the spectrum samples that cover the bandpass, with the spectrum and response interpolated to that grid and zero outside their range. It is linear in the flux, gives one value per spectrum independent of the others in the same call, and gives 1 for the AB source. It is 0 if the bandpass lies outside the spectrum, and the same whether the spectrum is given as arrays or as an SED object.',
 'every response curve, wavelength grid, flux array (one or many spectra), overlap of the two ranges',
 'Tests project one flat spectrum on bundled filters whose response vanishes at both ends, where several different formulas agree.',
 [R],[('projection','Response.project'),('interpolators','Response.set_interp, SED.set_interp')])
p('C17','Redshifting a template conserves energy and never accumulates',
 'After setting redshift z, wavelengths are the rest-frame ones times (1+z), fluxes are the rest-frame ones divided by (1+z), and the recorded redshift is z, whatever redshifts were set before. The rest-frame arrays never change, so the bolometric integral is conserved and returning to redshift zero restores the original spectrum. If the object carries an interpolator it describes the redshifted spectrum.',
 'every sequence of redshifts, spectra of any size, with and without interpolation',
 'Tests set one or two redshifts on one template and compare a few values.',
 [T],[('redshifting','SED.set_redshift'),('initial state','SED._setup')],('inputs','histories'))
p('C18','The design-matrix grid tabulates projections of redshifted templates',
 'The redshift grid has the requested number of equally spaced points from the lower to the upper end of the range. At grid point z the design matrix entry of band b and template t is the projection on band b of template t redshifted to z, whether templates are interpolated or projected in groups, for any number of templates; between grid points it is the linear interpolant and outside it a ValueError. Computing it leaves the templates at redshift zero.',
 'every number of templates and bands, redshift range, grid size, both template modes, template sets larger than the group size',
 'Tests build one default template set (few templates, one group) and never look at the matrix itself.',
 [F],[('grid','Fitter.__init__'),('matrix','Fitter._calc_Amatrix'),('interpolant','Fitter._interpolate_Amatrix')])
p('C19','Response metadata describe the sorted response curve',
 'However the samples are ordered on input, the stored wavelengths increase and each keeps its own response value. The effective wavelength is exp(int ln(lambda) R dlambda/lambda / int R dlambda/lambda), by trapezoids on the response grid, hence inside the wavelength range for a nonnegative curve. The half-maximum limits are the first crossing from the low end and the last crossing from the high end of half the maximum on the grid (the grid end if the curve has not dropped there), and the FWHM is their difference.',
 'every response curve in any sample order, including curves that do not vanish at the edges',
 'Tests compare stored numbers for bundled filters to loose tolerance and never use unsorted or truncated curves.',
 [R],[('sorting','Response.__init__, Response.fromdat, Response.fromfits'),('effective wavelength','Response.set_lambda_eff'),('FWHM','Response.set_fwhm_limits')])
p('C20','The response registry loads each response once and stays consistent',
 'All registry handles share one registry. Loading a name makes it present with the data of its file and leaves every other entry untouched; loading it again keeps the same object unless a reload is requested, and a failed load raises and leaves no entry for a name that was absent. Listing responses returns exactly the names of the .dat files in the directory, restricted to those that load from that directory when validity is checked.',
 'every sequence of loads, reloads and failed loads of any names; every directory content',
 'Tests load known names once and list the default directory.',
 [R],[('singleton','ResponseDictSingleton.__call__'),('loading','ResponseDict.load_response'),('listing','all_responses')],('inputs','histories'))
p('C21','A K-correction object survives being saved and restored',
 'An object restored from a file written by save has the same bands, output bands, mapping, redshift grid and range, abcorrect flag, templates and design matrices. It therefore returns the same fits, reconstructions, K-corrections, absolute magnitudes and derived quantities as the original. This holds for distinct output bands, non-integer redshift ranges and both abcorrect settings, whether restored by method or by the constructor.',
 'every configuration of bands, mapping, redshift range, grid size, abcorrect and templates',
 'No test saves or restores a K-correction object.',
 [K],[('save','Kcorrect.tofits'),('restore','Kcorrect.fromfits, Kcorrect.__init__(filename)')],('configurations','inputs'))
p('C22','Spectra, templates and responses survive being saved and restored',
 'Writing a spectrum, a template set or a response and reading it back gives the same wavelengths, fluxes or response values and, for templates, the same per-template masses, star-formation sums and metallicities, each under its own name. What is saved for a spectrum or template set is the rest-frame spectrum, whatever redshift is currently set, and the restored object is at redshift zero. It holds for one or many spectra and for both file layouts.',
 'every spectrum size, template count, both layouts, every current redshift',
 'One test writes one SED at redshift zero and reads it back; templates and the second layout are never written.',
 [T,R],[('spectra','SED.tofits, SED.fromfits'),('templates','Template.tofits, Template.__init__'),('responses','Response.tofits, Response.fromfits')])
p('C23','Malformed inputs are rejected instead of being fitted',
 'A fit, reconstruction, K-correction or absolute magnitude raises an error, and returns nothing, when redshift is missing or has more than one dimension, or when maggies, ivar or coefficients do not have exactly one row per redshift (no row axis for scalar redshift) and one column per band or template. Well-formed inputs of any floating type, or given as lists, are accepted with the same result. The same holds for the utilities: band counts other than five, or mismatched shapes, are rejected.',
 'every combination of input ranks and extents',
 'Tests only pass well-formed inputs.',
 [F,U],[('validation','Fitter._process_inputs'),('utility checks','utils.sdss_ab_correct, utils.error_floor, utils.sdss_asinh_to_maggies')])
p('C24','Calls never modify the arrays the caller passes in',
 'No public computation changes the contents of an array or list argument supplied by the caller: fitting, reconstruction, K-corrections, absolute magnitudes, derived quantities, their Monte Carlo versions, the AB and asinh conversions, error floors, flux conversion and projection. Calling the same computation twice with the same arguments therefore gives the same result.',
 'every argument, every floating type of the arrays, every class and abcorrect setting',
 'Tests use freshly built arrays once and never look at them again.',
 [F,K,U,R],[('aliasing point','Fitter._process_inputs (np.float32 of float32 arrays aliases)'),('in-place band correction','KcorrectGST.to_ab'),('in-place floor','utils.error_floor')],('inputs','histories'))
p('C25','Construction wires bands, mapping, matrices and defaults consistently',
 'Output bands default to the input bands and the mapping defaults to the input bands; a mapping whose length differs from the output bands, or that names a band not among the inputs, raises ValueError. The output design matrix is that of the output bands in their order. Defaults are as documented: redshift range 0 to 2 with 4000 points, AB correction off for the generic and GALEX/SDSS/2MASS classes and on for SDSS, the ugriz or FNugrizJHK bands, the Planck18 cosmology, the version 4 templates; any explicit setting is honoured.',
 'every combination of explicit and default settings, any order and repetition of bands',
 'Tests construct objects in the default configuration.',
 [K,F],[('constructor','Kcorrect.__init__'),('subclass defaults','KcorrectSDSS.__init__, KcorrectGST.__init__')],('configurations',))
p('C26','Basel spectrum files are parsed by position, unit by unit',
 'For a file with any number of units, unit k has its model number, temperature, gravity, metallicity, turbulence and hydrogen fraction read from its own six header words and its own 1221 fluxes, in file order, and the wavelengths are the first 1221 words. The number of units is the number of complete records after the wavelengths. The Sun and Vega reference magnitudes of a response are the AB magnitudes of its projection of those model spectra scaled to 10 pc and to the distance of Vega, or undefined if the projection is not positive.',
 'every number of units and every content of the file; every response',
 'The bundled files each hold a single unit.',
 [U,R],[('parser','utils.read_basel'),('reference magnitudes','Response.set_solar_magnitude, Response.set_vega2ab')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
