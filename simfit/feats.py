"""Module level callables that runs hand to the code under test (features,
perturbations, preprocessing). They are the seams for call level faults:
every one of them reports to ``hook`` before doing its work."""
import numpy as np
from menpo.feature import no_op, igo, gradient, ndfeature, normalize_std
from menpo.image import Image

_HOOK = [None]


def set_hook(h):
    _HOOK[0] = h


def _hook(name):
    if _HOOK[0] is not None:
        _HOOK[0](name)


@ndfeature
def squared(pixels):
    _hook('feature')
    return pixels * pixels + 0.1 * pixels


@ndfeature
def two_channels(pixels):
    _hook('feature')
    return np.concatenate([pixels, np.sqrt(np.abs(pixels))], axis=0)


def downsample(image):
    """A holistic feature that changes the size of the image."""
    _hook('feature')
    return image.rescale(0.8)


def patch_sq(pixels):
    """A feature of a patch (plain array or image)."""
    _hook('feature')
    if isinstance(pixels, Image):
        return pixels.from_vector(pixels.as_vector() ** 2)
    return np.asarray(pixels) ** 2 + 0.2 * np.asarray(pixels)


@ndfeature
def centre(pixels):
    _hook('feature')
    return pixels - pixels.mean()


FEATURES = {'no_op': no_op, 'igo': igo, 'gradient': gradient,
            'squared': squared, 'two': two_channels, 'down': downsample,
            'psq': patch_sq, 'centre': centre}


def feature(name):
    if isinstance(name, (list, tuple)):
        return [FEATURES[n] for n in name]
    return FEATURES[name]


def perturb(gt_bb, bb, **kw):
    _hook('perturb')
    from menpofit.fitter import noisy_shape_from_bounding_box
    return noisy_shape_from_bounding_box(gt_bb, bb, **kw)


def preprocess_shift(image, pointcloud):
    """Crop with a hook, as a user supplied preprocessing."""
    _hook('preprocess')
    im = image.as_greyscale(mode='luminosity') if image.n_channels == 3 \
        else image.copy()
    return im.crop_to_pointcloud_proportion(pointcloud, 0.6,
                                            return_transform=True)


def preprocess_rescale(image, pointcloud):
    _hook('preprocess')
    im = image.as_greyscale(mode='luminosity') if image.n_channels == 3 \
        else image.copy()
    return im.rescale(1.25, return_transform=True)


PREPROCESS = {'none': None, 'shift': preprocess_shift,
              'rescale': preprocess_rescale}


def identity(x):
    return x
