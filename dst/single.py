"""The single-process forecast (run_seyfert as a batch job runs it) as a simulated process."""
from . import compare, flow
from .kernel import Kernel

CFG = {"powerspectrum": "pmm", "angular": "angular", "derivative": "derivative", "fisher": "fisher"}


def argv(inp, work, extra=()):
    c = inp / "cfg"
    a = ["-ex", "interactive", "--is_batch_job", "True", "--workdir", work, "--forecast_config", c / "forecast.json",
         "--input_data_dir", inp / "data"]
    for t, n in CFG.items():
        a += [f"--{t}_config", c / f"{n}.json"]
    return a + list(extra)


def place(k, ctx, root, inputs="inputs", work="work"):
    """Inputs under root/in, a working directory with the power spectra linked into it."""
    inp = flow.clone_inputs(ctx, root, inputs)
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    w = root / work
    w.mkdir()
    (w / "PowerSpectrum").symlink_to(inp / "pmm" / "PowerSpectrum")
    return inp, w


def golden(ctx, inputs="inputs", name="single"):
    """Fault-free run: reference contents and the operations it performs."""
    root = ctx.base / name
    root.mkdir()
    k = Kernel({"sched_seed": 1, "_record_ops": True}, str(root))
    flow.setup(k, ctx)
    inp, w = place(k, ctx, root, inputs)
    d = k.wait(k.spawn_script("run_seyfert", argv(inp, w), root, label="run0"))
    k.close()
    if d.rc != 0:
        raise flow.GoldenFailed(f"a fault-free single-process forecast failed ({d.rc}): {d.text[-2500:]}")
    ops = [(kind, p) for _, kind, p, _ in k.op_log if kind != "open_r"]
    return w, compare.reference(w, compare.SINGLE), ops
