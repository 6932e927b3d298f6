"""Stand-ins for Keras and TensorFlow, which are not installed: they record what they are given and do nothing else."""
import sys
import types

import numpy as np

LOG = []


class Recorded(object):
    def __init__(self, *a, **k):
        self.args, self.kwargs = a, k
        LOG.append((type(self).__name__, a, k, self))

    def __call__(self, x):
        self.applied_to = x
        return self


class Layer(object):
    def __init__(self):
        self.trainable = True


class Network(Recorded):
    depth = 5

    def __init__(self, *a, **k):
        Recorded.__init__(self, *a, **k)
        self.layers = [Layer() for _ in range(Network.depth)]
        self.input, self.output = ("input of", id(self)), ("output of", id(self))
        self.calls = []

    def __getattr__(self, name):
        if name in ("load_weights", "compile", "fit_generator", "fit"):
            def note(*a, **k):
                self.calls.append((name, a, k))
            return note
        raise AttributeError(name)


class Generator(object):
    """What a keras DirectoryIterator shows of itself."""

    def __init__(self, filenames, class_indices, batch_size, made_with=None):
        self.filenames, self.class_indices, self.batch_size, self.made_with = filenames, class_indices, batch_size, made_with


class ImageDataGenerator(Recorded):
    def flow_from_directory(self, directory, **k):
        import os
        classes = sorted(d for d in os.listdir(directory) if os.path.isdir(os.path.join(directory, d)))
        files = [os.path.join(c, f) for c in classes for f in sorted(os.listdir(os.path.join(directory, c)))]
        return Generator(files, {c: i for i, c in enumerate(classes)}, k.get("batch_size", 32), (self, directory, k))


def img_to_array(x):
    return np.asarray(x, dtype=np.float32)


def install():
    if "keras" in sys.modules:
        return

    def mod(name, **members):
        m = types.ModuleType(name)
        m.__path__ = []
        for k, v in members.items():
            setattr(m, k, v)
        sys.modules[name] = m
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(sys.modules[parent], child, m)
        return m

    def cls(name, base=Recorded):
        return type(name, (base,), {})
    mod("keras")
    mod("keras.preprocessing")
    mod("keras.preprocessing.image", img_to_array=img_to_array, ImageDataGenerator=ImageDataGenerator, DirectoryIterator=Generator)
    mod("keras.models", Model=cls("Model", Network))
    mod("keras.applications")
    for n in ("VGG16", "VGG19", "ResNet50"):
        mod("keras.applications." + n.lower(), **{n: cls(n, Network)})
    mod("keras_applications")
    for n, m in (("InceptionV3", "inception_v3"), ("MobileNet", "mobilenet"), ("MobileNetV2", "mobilenet_v2")):
        mod("keras_applications." + m, **{n: cls(n, Network)})
    mod("keras.layers", **{n: cls(n) for n in ("GlobalAveragePooling2D", "Dense", "Dropout")})
    mod("keras.optimizers", Optimizer=cls("Optimizer"), Adam=cls("Adam"))
    mod("keras.callbacks", TensorBoard=cls("TensorBoard"), ModelCheckpoint=cls("ModelCheckpoint"))
    mod("keras.backend")
    mod("keras.backend.tensorflow_backend", set_session=lambda s: None)
    tf = mod("tensorflow", Tensor=object, GPUOptions=lambda **k: types.SimpleNamespace(**k), Session=lambda **k: None)
    tf.ConfigProto = lambda **k: types.SimpleNamespace(**k)
