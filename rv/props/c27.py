"""C27: neural network scoring and training, with stand-ins for the networks that record what they are given."""
import os

import numpy as np

from rv.core import Registry
from rv import keras_stub as K
K.install()
from resippy.image_recognition.neural_net_model_scoring.keras_image_scoring import chip_and_score_image  # noqa: E402
from resippy.image_recognition.neural_net_model_training import keras_model_training as kt  # noqa: E402
from resippy.utils.image_utils import image_utils as iu  # noqa: E402

P = Registry("C27", "Images whose pixels are all different, scored by recording networks over random chip sizes, overlaps, target sizes, "
                    "normalizations, labels and sample types; training set-ups over random class folders and labels.",
             assumptions=["Keras and TensorFlow are stand-ins that record what they are given."], boost=10)


def given_as(a, k, i, *names):
    """The argument given by position i or by name."""
    for n in names:
        if n in k:
            return k[n]
    return a[i] if len(a) > i else None


class Net(object):
    """A network whose scores depend on everything it is shown."""

    def __init__(self, nclasses, rng):
        self.w = rng.normal(size=nclasses)
        self.seen = []

    def predict(self, x):
        x = np.array(x, dtype=float)
        self.seen.append(x)
        base = float(np.mean(x) + 0.3 * x.ravel()[0] - 0.7 * x.ravel()[-1] + np.std(x))
        return np.array([np.cos(base * 17 + 1) * self.w + base], dtype=np.float32)


class Ledger(object):
    def __init__(self):
        self.status = []

    def set_status(self, what, percent):
        self.status.append(percent)


def weights(n, m):
    """Bilinear resampling weights from n to m samples (triangle as wide as the larger of the two spacings)."""
    s = n / m
    width = max(1.0, s)
    c = (np.arange(m) + 0.5) * s - 0.5
    w = np.maximum(0, 1 - np.abs(np.arange(n)[None, :] - c[:, None]) / width)
    return w / w.sum(axis=1, keepdims=True)


from rv.props.c16 import chip_size                                                               # noqa: E402


@P.scenario(quick=600, thorough=8000, monitors=("chips", "scores", "labels", "positions", "progress"), big=6)
def scoring(ctx):
    r = ctx.rng
    ny, nx = ctx.shape(4, 40, 300000)
    cy, cx = chip_size(ctx, ny, nx)
    nb = int(r.choice([3, 3, 4]))
    dt = str(r.choice(["u1", "u1", "u2", "f4", "f8"]))
    hi = {"u1": 255, "u2": 60000}.get(dt, 200)
    im = (r.random((ny, nx, nb)) * hi).astype(dt)
    if r.random() < 0.1:
        im[:] = im[0, 0, 0]
    ty, tx = int(r.integers(1, 24)), int(r.integers(1, 24))
    oy, ox = [float(r.choice([0, 0.25, 0.5] + ([] if ctx.big else [0.75, r.uniform(0, 0.9)]))) for _ in "yx"]
    norm = str(r.choice(["divide_by_255", "min_max_per_chip", "none"]))
    ncl = int(r.choice([1, 2, 3, 5]))
    labels = [str(v) for v in r.permutation(["ship", "car", "plane", "tree", "house"])[:ncl]]
    ask = bool(r.random() < 0.6)
    ledger = Ledger() if r.random() < 0.5 else None
    net = Net(ncl, r)
    ctx.given(im=im, chip=(cy, cx), target=(ty, tx), overlap=(oy, ox), norm=norm, classes=ncl, ask=ask)
    kw = dict(image_overlap_x_percent=ox, image_overlap_y_percent=oy, target_chip_size_x=tx, target_chip_size_y=ty, normalize_method=norm)
    if ask:
        find = labels[int(r.integers(0, ncl))]
        kw.update(labels=list(labels), thing_to_find=find)
    if ledger is not None:
        kw["atk_chain_ledger"] = ledger
    scores, uls = ctx.call(chip_and_score_image, im.copy(), net, cx, cy, **kw)
    n = len(uls)
    ctx.cover(norm, dt, "labels" if ask else "all", "one chip" if n == 1 else "chips", "bands", nb, "ledger" if ledger else "-")
    # the chips cover the image, in place
    cover = np.zeros((ny, nx), bool)
    for y, x in uls:
        ctx.check("positions", 0 <= y <= ny - cy and 0 <= x <= nx - cx, "a scored chip leaves the image", at=(y, x))
        cover[y:y + cy, x:x + cx] = True
    ctx.check("positions", cover.all() and len(set(map(tuple, uls))) == n, "the scored chips do not cover the image once each")
    oly, olx = int(cy * oy), int(cx * ox)
    ny_chips = len({y for y, _ in uls})
    ctx.check("positions", ny_chips == len(range(0, max(1, ny - cy), cy - oly)) + (1 if ny > cy else 0) or ny == cy,
              "the overlap of the chips is not the one asked for", rows=ny_chips)
    # the network saw each chip, in order
    ctx.check("chips", len(net.seen) == n, "the network did not see each chip once", seen=len(net.seen), chips=n)
    for (y, x), got in zip(uls, net.seen):
        chip = im[y:y + cy, x:x + cx, :3].astype(float)
        want = np.einsum("ay,bx,yxc->abc", weights(cy, ty), weights(cx, tx), chip)
        tol = 1e-5 * hi
        scale = 1.0
        if norm == "divide_by_255":
            want, scale = want / 255.0, 1 / 255.0
        elif norm == "min_max_per_chip":
            span = want.max() - want.min()
            if span < 1e-3 * hi and span > 0:
                ctx.check("chips", np.isfinite(got).all() and got.shape == (1, ty, tx, 3), "a nearly uniform chip is scored as NaN")
                continue
            want, scale = (want - want.min()) / (span if span else 1), 1 / (span if span else 1)
        slack = 1.0 if dt in ("u1", "u2") else 0.0
        ctx.close("chips", got, want[None], "the network was shown something else than the chip at %s" % ((y, x),),
                  atol=(tol + slack) * scale * (2.2 if norm == "min_max_per_chip" else 1.1) + 1e-6, rtol=1e-5)
    # its scores come back in order
    fresh = Net(ncl, r)
    fresh.w = net.w
    mine = np.array([fresh.predict(s)[0] for s in net.seen])
    if ask:
        ctx.close("labels", np.asarray(scores), mine[:, labels.index(find)], "the scores are not those of the label asked for, chip by chip",
                  atol=1e-5, rtol=1e-5)
        det = iu.create_detection_image_from_scores(scores, uls, cx, cy)
        ctx.check("labels", det.shape == (ny, nx), "the scores do not make a detection image of the size of the image")
    else:
        ctx.close("scores", np.asarray(scores).reshape(n, -1), mine, "the scores are not those of the chips in order", atol=1e-5, rtol=1e-5)
        ctx.check("scores", np.shape(scores)[0] == n, "there is not one score (list) per chip", shape=np.shape(scores))
    if ledger is not None:
        p = ledger.status
        ctx.check("progress", len(p) == n and all(0 <= v <= 100 for v in p) and all(a <= b for a, b in zip(p, p[1:])),
                  "the progress reported is not one step per chip", progress=p[:20])


@P.scenario(quick=200, thorough=2000, monitors=("generators",))
def generators(ctx):
    """Image generators use the folders, size, batch and flips asked for."""
    r = ctx.rng
    dirs = []
    for what in ("train", "val"):
        d = ctx.path(what)
        for c in ("a", "b", "c")[: int(r.integers(1, 4))]:
            os.makedirs(os.path.join(d, c))
            for i in range(int(r.integers(0, 5))):
                open(os.path.join(d, c, "%d.png" % i), "w").close()
        dirs.append(d)
    size, batch = int(r.integers(8, 300)), int(r.integers(1, 40))
    rescale = float(r.choice([1.0 / 255, 1.0, 0.5]))
    h, v = bool(r.random() < 0.5), bool(r.random() < 0.5)
    ctx.given(size=size, batch=batch, flips=(h, v), rescale=rescale)
    if r.random() < 0.3:
        rescale, h, v, batch = 1.0 / 255, False, False, 10
        tr, va = ctx.call(kt.setup_train_and_val_image_generators, size, *dirs)
    else:
        tr, va = ctx.call(kt.setup_train_and_val_image_generators, size, dirs[0], dirs[1], batchsize=batch, rescale=rescale,
                          horizontal_flip=h, vertical_flip=v)
    for g, d, what in ((tr, dirs[0], "training"), (va, dirs[1], "validation")):
        maker, where, k = g.made_with
        ctx.check("generators", where == d, "the %s images come from another folder" % what, folder=where)
        ctx.check("generators", tuple(k["target_size"]) == (size, size) and k["batch_size"] == batch and k["class_mode"] == "categorical",
                  "the %s images have another size, batch or class mode" % what, given=k)
        ctx.check("generators", maker.kwargs.get("rescale") == rescale, "the %s images are scaled differently" % what)
        flips = (bool(maker.kwargs.get("horizontal_flip")), bool(maker.kwargs.get("vertical_flip")))
        ctx.check("generators", flips == ((h, v) if what == "training" else (False, False)), "the %s images are flipped otherwise than asked" % what)
        ctx.check("generators", kt.get_class_indices(g) is g.class_indices, "the class indices are not those of the generator")
        ctx.cover(what, h, v)


@P.scenario(quick=300, thorough=3000, monitors=("network", "fit", "files"))
def training(ctx):
    """Training compiles and fits the network asked for, and writes the labels in the order of its classes."""
    r = ctx.rng
    names = [str(v) for v in r.permutation(["zebra", "ape", "cat 1", "Dog", "émeu", "10", "9"])[: int(r.integers(1, 7))]]
    classes = {c: i for i, c in enumerate(sorted(names) if r.random() < 0.6 else names)}
    batch = int(r.integers(1, 20))
    sets = [K.Generator(["f%d" % i for i in range(ctx.many(int(r.integers(1, 200)), 5000))], classes, b)
            for b in (batch, batch if r.random() < 0.5 else int(r.integers(1, 20)))]
    out = ctx.path("out")
    K.Network.depth = int(r.choice([1, 3, 5, 22, 40, 175]))
    base = K.Network()
    kw = {}
    final = None
    if r.random() < 0.6:
        drop, dense = float(r.choice([0.2, 0.5])), int(r.choice([128, 64]))
        default = bool(r.random() < 0.3)
        final = ctx.call(kt.create_final_dense_softmax_layer, base, len(names), **({} if default else dict(dropout=drop, dense_connections=dense)))
        drop, dense = (0.2, 128) if default else (drop, dense)
        chain, x = [], final
        while isinstance(x, K.Recorded):
            chain.append(x)
            x = x.applied_to
        ctx.check("network", [type(c).__name__ for c in chain] == ["Dense", "Dropout", "GlobalAveragePooling2D", "Dense"] and x == base.output,
                  "the final layers are not those on top of the network", chain=[type(c).__name__ for c in chain])
        ctx.check("network", given_as(chain[0].args, chain[0].kwargs, 0, "units") == len(names) and chain[0].kwargs.get("activation") == "softmax", "the last layer is not a softmax over the classes")
        ctx.check("network", given_as(chain[1].args, chain[1].kwargs, 0, "rate") == drop and given_as(chain[3].args, chain[3].kwargs, 0, "units") == dense, "dropout or width of the final layers are not those asked for")
        kw["final_model_layers"] = final
    weights_file = ctx.path("w.h5") if r.random() < 0.5 else None
    if weights_file:
        kw["model_weights_file"] = weights_file
    name = str(r.choice(["trained_model.h5", "net.h5"]))
    epochs = int(r.integers(1, 50))
    if name != "trained_model.h5":
        kw["model_output_fname"] = name
    kw.update(n_epochs=epochs, loss=str(r.choice(["categorical_crossentropy", "mse"])), metrics=["accuracy", "mae"][: int(r.integers(1, 3))])
    if r.random() < 0.4:
        kw["optimizer"] = object()
    frozen = bool(r.random() < 0.5)
    ctx.call(kt.freeze_model_layers, base)
    ctx.check("network", not any(layer.trainable for layer in base.layers), "freezing leaves a layer trainable")
    if not frozen:
        ctx.call(kt.unfreeze_model_layers, base)
        ctx.check("network", all(layer.trainable for layer in base.layers), "unfreezing leaves a layer frozen")
    del K.LOG[:]
    ctx.given(classes=classes, batch=batch, sizes=[len(s.filenames) for s in sets], final=final is not None)
    ctx.call(kt.train_model, base, sets[0], sets[1], out, **kw)
    model = base
    if final is not None:
        made = [(a, k, o) for n, a, k, o in K.LOG if n == "Model"]
        ctx.check("network", len(made) == 1 and given_as(made[0][0], made[0][1], 0, "inputs") == base.input and given_as(made[0][0], made[0][1], 1, "outputs") is final,
                  "the trained model is not the network with the final layers", made=made)
        model = made[0][2]
    calls = [c[0] for c in model.calls]
    ctx.check("fit", calls == (["load_weights"] if weights_file else []) + ["compile", calls[-1]] and calls[-1] in ("fit_generator", "fit"), "the model is not loaded, compiled and fitted in this order", calls=calls)
    if weights_file:
        ctx.check("fit", given_as(model.calls[0][1], model.calls[0][2], 0, "filepath") == weights_file, "other weights are loaded")
    comp, fit = model.calls[-2], model.calls[-1]
    ctx.check("fit", given_as(comp[1], comp[2], 1, "loss") == kw["loss"] and given_as(comp[1], comp[2], 2, "metrics") == kw["metrics"] and
              given_as(comp[1], comp[2], 0, "optimizer") is not None,
              "the model is compiled with another loss or metrics", given=comp[2])
    ctx.check("fit", "optimizer" not in kw or given_as(comp[1], comp[2], 0, "optimizer") is kw["optimizer"], "the model is compiled with another optimizer")
    ctx.check("fit", given_as(fit[1], fit[2], 0, "generator", "x") is sets[0] and fit[2].get("validation_data") is sets[1], "the model is fitted to other images")
    ctx.check("fit", fit[2].get("epochs") == epochs, "the model is fitted for another number of epochs")
    for key, g in (("steps_per_epoch", sets[0]), ("validation_steps", sets[1])):
        # keras rounds fractions up
        steps = fit[2].get(key)
        ctx.check("fit", -(-len(g.filenames) // g.batch_size) == int(np.ceil(steps)), "%s do not go through all images once" % key, steps=steps, images=len(g.filenames))
    kinds = {type(c).__name__: c for c in fit[2].get("callbacks", [])}
    ctx.check("fit", kinds.get("ModelCheckpoint") is not None and given_as(kinds["ModelCheckpoint"].args, kinds["ModelCheckpoint"].kwargs, 0, "filepath") == os.path.join(out, name), "the trained model is kept elsewhere")
    keep = dict(zip(("filepath", "monitor", "verbose", "save_best_only", "save_weights_only", "mode", "period"), kinds["ModelCheckpoint"].args))
    keep.update(kinds["ModelCheckpoint"].kwargs)
    ctx.check("fit", keep.get("monitor", "val_loss") == "val_loss" and keep.get("mode", "auto") in ("min", "auto") and keep.get("save_best_only") and
              not keep.get("save_weights_only") and keep.get("period", 1) == 1,
              "the model kept is not the whole model with the least validation loss of all epochs", given={k: str(v) for k, v in keep.items()})
    logs = given_as(kinds["TensorBoard"].args, kinds["TensorBoard"].kwargs, 0, "log_dir") if "TensorBoard" in kinds else ""
    ctx.check("files", os.path.isdir(logs) and os.path.dirname(logs) == os.path.join(out, "logs"), "the log directory is not made under the output directory", logs=logs)
    with open(os.path.join(out, "labels.txt"), encoding="utf8") as f:
        got = [t for t in f.read().split("\n") if t]
    ctx.equal("files", got, sorted(classes, key=classes.get), "the labels written are not the classes in order")
    ctx.cover("final" if final is not None else "base", "weights" if weights_file else "-", frozen)


@P.scenario(quick=24, thorough=100, monitors=("network",))
def known_networks(ctx):
    """Pretrained networks are made of the kind and weights asked for."""
    r = ctx.rng
    fn, want = [(kt.load_vgg16_model, "VGG16"), (kt.load_vgg19_model, "VGG19"), (kt.load_resnet50_model, "ResNet50")][ctx.index % 3]
    top = bool(r.random() < 0.5)
    w = ctx.path("weights %d.h5" % ctx.index)
    m = ctx.call(fn, w) if top and r.random() < 0.5 else ctx.call(fn, w, include_top=top)
    ctx.given(kind=want, top=top)
    ctx.check("network", type(m).__name__ == want and given_as(m.args, m.kwargs, 1, "weights") == w and given_as(m.args, m.kwargs, 0, "include_top") == top,
              "another network is loaded", got=(type(m).__name__, m.kwargs))
    ctx.cover(want, top)
