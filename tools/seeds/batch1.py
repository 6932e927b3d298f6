import sys; sys.path.insert(0, "/verif/tools")
from seed_new import make
make("s01-ace-mask", "C13", [("resippy/spectral/spectral_image_processing_1d.py",
"""    if inverse_covariance is None:
        scene_covariance = compute_image_cube_spectral_covariance(
            spectral_image, image_mask)
        inverse_covariance = np.linalg.inv(scene_covariance)
    # a mean of unsigned whole numbers would wrap around in the subtraction
    spectral_mean = np.multiply(spectral_mean, 1.0)
    demeaned_image = np.subtract(spectral_image, spectral_mean)
    demeaned_target_sig_array""",
"""    if inverse_covariance is None:
        scene_covariance = compute_image_cube_spectral_covariance(
            spectral_image, image_mask if spectral_mean is None else None)
        inverse_covariance = np.linalg.inv(scene_covariance)
    # a mean of unsigned whole numbers would wrap around in the subtraction
    spectral_mean = np.multiply(spectral_mean, 1.0)
    demeaned_image = np.subtract(spectral_image, spectral_mean)
    demeaned_target_sig_array""")],
"an image mask, a covariance derived by the detector (spectral_mean has been filled in before, so the mask is always dropped)",
"masked pixels take part in the covariance that ACE derives",
"""
import numpy as np
from resippy.spectral import spectral_image_processing_1d as s
r = np.random.default_rng(3)
img = r.normal(size=(200, 4))
mask = np.zeros(200); mask[:20] = 1
img[:20] *= 50
t = r.normal(size=4) * 3
full = s.ace(img, t, image_mask=mask)
clean = s.ace(img[20:], t)
assert np.allclose(full[20:], clean), "masked pixels influence the scores"
""")
make("s02-chip-band-order", "C16", [("resippy/utils/image_utils/image_chipper.py",
"        nbands = len(bands)\n\n    is_output", "        bands = sorted(bands)\n        nbands = len(bands)\n\n    is_output")],
"a band list that is not in ascending order",
"chips hold the requested bands in the wrong order",
"""
import numpy as np
from resippy.utils.image_utils import image_chipper as c
img = np.arange(12 * 10 * 4).reshape(12, 10, 4)
chips, uls = c.chip_images_by_pixel_upper_lefts(img, [1, 3], [2, 0], 4, 5, bands=[2, 0, 3])
for ch, (y, x) in zip(chips, uls):
    assert np.array_equal(ch, img[y:y + 4, x:x + 5][:, :, [2, 0, 3]])
""")
