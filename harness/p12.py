"""P12 lens planes tile the line of sight to the source and include the deflector plane"""
from symx.api import registry
from harness import world
HARNESSES, harness = registry()
UT = "pyHalo.utilities"


def planes(ctx, zl, zs, step):
    return ctx.get(UT, "generate_lens_plane_redshifts")(zl, zs) if step is None else ctx.get(UT, "generate_lens_plane_redshifts")(zl, zs, step)


def tiling(ctx, zs, z, dz, step, zl=None):
    """the oracle: what the statement says, for redshifts quoted to two decimals"""
    z, dz = list(z), list(dz)
    ctx.check(len(z) == len(dz), "one thickness per plane")
    ctx.check(len(z) > 0, "at least one plane")
    for a, b in zip(z, z[1:]):
        ctx.check(b > a + 0.004, "planes strictly increasing")
    for i in range(len(z)):
        nxt = z[i + 1] if i + 1 < len(z) else zs
        ctx.close(z[i] + dz[i], nxt, "each plane reaches to the next one, the last one to the source", rtol=0.0, atol=1e-6)
        ctx.check(dz[i] > 0.004, "every plane has a positive thickness")
        ctx.check(dz[i] <= step + 1e-6, "no plane is thicker than the spacing")
        ctx.check(z[i] < zs - 0.004, "planes in front of the source")
    if zl is not None:
        n = 0
        for v in z:
            if abs(v - zl) < 0.004:
                n += 1
        ctx.check(n == 1, "the deflector plane is present once")
    # evenly spaced, up to the interval in front of the deflector and of the source
    for i in range(len(z) - 1):
        if zl is not None and abs(z[i + 1] - zl) < 0.004:
            continue
        ctx.close(z[i + 1] - z[i], step, "evenly spaced by the requested spacing", rtol=0.0, atol=1e-6)


STEPS = [0.02, 0.03, 0.05, 0.1]


@harness("deflector and source redshift any multiples of 0.01 (the documented rounding) with the deflector in [0.02,0.02+6 steps] and source up to 6 steps behind; spacing 0.02 (default), 0.03, 0.05, 0.1; the rounding error of the plane count is a free variable",
         max_paths=900, cands=30, witnesses=8, prove_ms=4000)
def with_deflector(ctx):
    step = ctx.choice("spacing", STEPS if ctx.thorough else [0.02, 0.05])
    k = int(round(step * 100))
    n = 9 if ctx.thorough else 5
    kl = ctx.integer("100 zlens", 2, 2 + n * k)
    kd = ctx.integer("100 (zsource - zlens)", 1, n * k)
    zl = kl / 100
    zs = (kl + kd) / 100
    z, dz = planes(ctx, zl, zs, None if step == 0.02 else step)
    ctx.observe("z", z)
    ctx.observe("dz", dz)
    tiling(ctx, zs, z, dz, step, zl)
    if kl > 2:
        ctx.close(z[0], 0.01, "planes start at the documented first redshift", rtol=0.0, atol=1e-6)


@harness("no deflector: source any multiple of 0.01 up to 12 steps, same spacings", max_paths=400, cands=30, witnesses=8)
def without_deflector(ctx):
    step = ctx.choice("spacing", STEPS)
    k = int(round(step * 100))
    ks = ctx.integer("100 zsource", 2, 2 + 12 * k)
    zs = ks / 100
    z, dz = planes(ctx, None, zs, None if step == 0.02 else step)
    ctx.observe("z", z)
    tiling(ctx, zs, z, dz, step)
    ctx.close(z[0], 0.01, "planes start at the documented first redshift", rtol=0.0, atol=1e-6)


@harness("symbolic spacing, any multiple of 0.01 in [0.02,0.3]; deflector and source within 4 spacings", max_paths=400, cands=30)
def any_spacing(ctx):
    k = ctx.integer("100 spacing", 2, 30)
    kl = ctx.integer("100 zlens", 2, 120)
    kd = ctx.integer("100 (zsource - zlens)", 1, 120)
    ctx.assume(kl <= 1 + 4 * k)
    ctx.assume(kd <= 4 * k)
    zl, zs, step = kl / 100, (kl + kd) / 100, k / 100
    z, dz = planes(ctx, zl, zs, step)
    ctx.observe("z", z)
    tiling(ctx, zs, z, dz, step, zl)
