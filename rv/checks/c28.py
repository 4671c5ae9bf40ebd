"""Full contributions: the self-emission element by element, and nothing else changed."""
from .base import *
from .c16 import command

LEVEL = "exploration"
RULE = ("a case counts when the same payload and targets were run with and without the full contributions and every element's column was compared with the "
        "described element, their sum with the total, and every other column and file entry with the run without")
ASSUMPTIONS = ["elements have distinct names, or get numbered ones"]
REQUIRED = ["photometer", "spectrometer", "slit", "optics box", "detector box", "warm", "repeated element names", "function", "command", "saved payload", "parallel",
            "several channels", "cold", "element signals", "runs compared", "sums compared", "noises compared"]
LIMIT = 200


def cases(seed, tier):
    out = []
    how = ["function", "command", "saved", "function"]
    for i, s in enumerate(seeds(seed, count(tier, 48, 600), "C28")):
        o = {"working_R": [150, 300][i % 2], "n_ch": 1 + i % 3, "n_tgt": 1 + i % 2, "n_frg": i % 3}
        if i % 3 == 1:
            o.update(p_dup=0.8, p_slit=0.9)
        out.append({"s": s, "how": how[i % 4], "n": 1 if i % 5 else 2, "cold": i % 8 == 7, "o": o})
    return out


def check(case, obs, d):
    import exorad

    spec = gen.gen_spec(case["s"], **case["o"])
    if case["cold"]:
        for e in spec["common_optics"] + [e for c in spec["channels"] for e in c["optics"]]:
            e.pop("temperature", None)
        obs.label("cold")
    obs.key, obs.nontrivial = case["s"], True
    obs.label(*sorted(features(spec)))
    if len(spec["channels"]) > 1:
        obs.label("several channels")
    xml = gen.render_payload(spec, os.path.join(d, "in"))
    csv = gen.render_targets(spec, os.path.join(d, "in"))
    plain_out, full_out = os.path.join(d, "plain.h5"), os.path.join(d, "full.h5")
    common.sut("a run", exorad.standard_pipeline, xml, csv, output=plain_out)
    src = xml
    if case["how"] == "saved":
        src = os.path.join(d, "saved.h5")
        import exorad.tasks as T

        common.sut("saving a payload", T.PreparePayload(), payload_file=xml, output=src)
        obs.label("saved payload")
        common.sut("a run of a saved payload", exorad.standard_pipeline, src, csv, output=plain_out)
    if case["how"] == "command":
        code, err = command(["-p", src, "-t", csv, "-o", full_out, ["-c", "--full_contrib"][case["s"] % 2], "-n", str(case["n"])])
        obs.label("command")
    else:
        common.sut("a run with full contributions", exorad.standard_pipeline, src, csv, output=full_out, full_contrib=True, n_thread=case["n"])
        obs.label("function")
    if case["n"] > 1:
        obs.label("parallel")
    a, b = read_output(plain_out), read_output(full_out)
    obs.expect(list(a) == list(b), "targets with full contributions are %s, without %s" % (list(b), list(a)))
    pms = [model.PayloadModel(spec), model.PayloadModel(spec, include_edge=True)]
    elements = []
    for cm in pms[0].channels:
        elements += [k for k in cm.el_signal if k not in elements]
        if cm.el_signal:
            obs.label("warm")
    for name in a:
        if name not in b:
            continue
        tf, tp = b[name], a[name]
        cols = [k + " signal" for k in elements]
        want = [c for c in tp.colnames if c not in ("instrument_signal", "instrument_signal_noise")] + cols + [c + "_noise" for c in cols]
        obs.expect(sorted(want) == sorted(tf.colnames), "%s: columns missing with full contributions: %s, unexpected: %s"
                   % (name, sorted(set(want) - set(tf.colnames)), sorted(set(tf.colnames) - set(want))))
        if len(tf) != len(tp):
            obs.expect(False, "%s: %d rows with full contributions, %d without" % (name, len(tf), len(tp)))
            continue
        noisy = {"total_noise"}
        for c in tp.colnames:
            if c not in tf.colnames:
                continue
            if c in noisy:
                x, y = pipe.column(tf, c, "hr0.5"), pipe.column(tp, c, "hr0.5")
                fin = np.isfinite(y)
                obs.expect(bool(np.all(np.isfinite(x) == fin)) and common.close(x[fin], y[fin], 1e-9),
                           "%s: %s changes with the full contributions: %s" % (name, c, common.worst(x[fin], y[fin])))
                obs.label("noises compared")
            else:
                obs.expect(same(tf[c], tp[c]), "%s: column %s changes with the full contributions" % (name, c))
        obs.label("runs compared")
        rows = np.array([str(x) for x in tf["chName"]])
        if any(c not in tf.colnames for c in cols):
            continue
        tot = np.zeros(len(tf))
        for k in cols:
            obs.expect(str(tf[k].unit) in ("ct / s", "count / s"), "%s: column %s is in %s" % (name, k, tf[k].unit))
            tot = tot + pipe.column(tf, k, "ct/s")
        want = pipe.column(tp, "instrument_signal", "ct/s")
        obs.expect(common.close(tot, want, 1e-9, 1e-14 * max(np.max(np.abs(want)), 1e-300)),
                   "%s: the contributions do not add up to the instrument signal: %s" % (name, common.worst(tot, want)))
        obs.label("sums compared")
        var = sum((pipe.column(tf, c + "_noise", "ct/s hr0.5") ** 2 for c in cols), np.zeros(len(tf)))
        want = pipe.column(tp, "instrument_signal_noise", "ct/s hr0.5") ** 2
        # the noises of a channel that gets no light are not numbers
        fin = np.isfinite(want)
        var, want = var[fin], want[fin]
        obs.expect(common.close(var, want, 1e-9, 1e-14 * max(np.max(np.abs(want), initial=0), 1e-300)),
                   "%s: the photon noises of the contributions do not add up to the one of the instrument signal: %s" % (name, common.worst(var, want)))
        for i, cm in enumerate(pms[0].channels):
            sel = rows == cm.name
            m2 = pms[1].channels[i]
            for e in elements:
                got = pipe.column(tf, e + " signal", "ct/s")[sel]
                if e not in cm.el_signal:
                    obs.expect(bool(np.all(got == 0)), "%s: %s, that %s does not have, contributes to it" % (name, e, cm.name))
                    continue
                w, w2 = cm.el_signal[e], m2.el_signal[e]
                t = 1e-12 * max(np.max(np.abs(cm.instrument)), 1e-300)
                ok = got.shape == w.shape and bool(np.all(common.near(got, w, 1e-6, t) | common.near(got, w2, 1e-6, t)))
                obs.expect(ok, "%s: contribution of %s to %s deviates: %s" % (name, e, cm.name, common.worst(got, w)))
                obs.label("element signals")
    obs.sample = {"elements": elements, "columns": [c for c in b[list(b)[0]].colnames][:30] if b else []}
