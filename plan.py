"""Which harness runs decide which property, and within which bounds."""

ASSUMPTIONS = [
    "Per-instruction induction: each run starts from an arbitrary presale/escrow state that satisfies the state invariant of harness/src/world.rs "
    "(sums over registries, caps, schedule consistency; fixed price: max cap buys at most the supply), executes one or two instructions through presale::entry, "
    "and asserts. Reachable states satisfy that invariant because initialization (C20) establishes it and every instruction's assertions re-establish it.",
    "The Solana runtime and the token, system, memo and associated-token programs are stand-ins (harness/src/svm.rs) that follow their documented contract "
    "for exactly the calls presale makes; account data of failed instructions is rolled back by the runtime.",
    "Times lie below 2^48 s; a presale's recorded deposits plus fees fit one u64 token balance.",
    "rustc's unoptimised LLVM IR for the host (x86-64, overflow checks on as in the program's own release profile) has the semantics of the SBF build.",
    "sha256 and program address derivation: evaluated for concrete inputs, otherwise treated as an injective uninterpreted function.",
]


def runs(prop, tier):
    return TABLE[prop](tier == "thorough")


def bounds(prop, tier):
    b = ["all u64/u128/u16/u8 values of amounts, caps, prices, rates, balances and times below 2^48 s, unless a run's parameters say otherwise",
         "number of registries, mode and phase are enumerated by run parameters (nreg, idx, mode, phase); all listed runs were executed",
         "sequences: one instruction from an arbitrary invariant state (two where a run has again=1 or is named fair/mono/settle)"]
    return b + BOUNDS.get(prop, [])


def R(h, need=(), o=None, cost=1, noassert=False, **p):
    return dict(h=h, p=p, need=list(need), o=o or {}, cost=cost, noassert=noassert)


MODES = (0, 1, 2)


def nregs(t, quick=(1,), full=(1, 2, 3, 5)):
    return full if t else quick


def each(f, modes=MODES, t=False, quick=(1, 2), full=(1, 2, 3), both=False, **kw):
    """One run per mode, number of registries and (for several registries) first and last registry."""
    out = []
    for m in modes:
        for n in (full if t else quick):
            for i in sorted({0, n - 1}) if t or both or n > 2 else [n - 1]:
                out += f(mode=m, nreg=n, idx=i, **kw)
    return out


def dep(**p):
    return [R("h_deposit", ["deposit accepted"], cost=30 if p["mode"] == 0 else 2, **p)]
def wd(**p):
    dead = p["mode"] == 2
    return [R("h_withdraw", [] if dead else ["withdraw accepted"], noassert=dead, cost=5, **p)]
def claim(**p):
    return [R("h_claim", ["claim accepted"], cost=20 if p["mode"] == 0 else 5, **p)]
def vest(**p):
    return [R("h_vest", ["refreshed"], cost=8, **p)]
def refresh(**p):
    return [R("h_refresh", ["refresh accepted"], cost=8, **p)]
def refund(**p):
    dead = p["mode"] != 1 and p.get("phase") == 2
    return [R("h_refund", [] if dead else ["refund accepted"], noassert=dead, cost=40 if p["mode"] == 1 else 1, **p)]
def cwd(**p):
    return [R("h_creator_withdraw", ["creator withdrawal accepted"], cost=2, **p)]
def fee(**p):
    return [R("h_collect_fee", ["fee collected"], cost=10, **p)]
def unsold(**p):
    return [R("h_unsold", ["unsold action"] if p["mode"] == 0 or p["nreg"] > 1 else [], noassert=True, cost=10, **p)]
def close(**p):
    return [R("h_close_escrow", ["escrow closed"], cost=100 if p["mode"] == 1 and p.get("phase") == 2 else 10, **p)]
def create(kind, **p):
    return [R("h_create_escrow", ["escrow created"], kind=kind, **p)]


def settle(**p):
    return [R("h_settle", ["settled"], cost=30 if p["mode"] == 1 and p["phase"] == 2 else 1, **p)]
def settle_base(**p):
    return [R("h_settle_base", ["settled"], cost=60 if p["mode"] == 0 else 5, **p)]
def init(need="presale created", **p):
    return [R("h_init", [need], cost=5, **p)]
def memo(f, **p):
    return f(nreg=1, t22=1, memo=1, **p)
def fm(f, side=1, **p):
    return f(nreg=1, t22=1, feemint=side, **p)


AUTH = dict(auth=1, vesting=0, nreg=1)


NEEDS = {1: "claimed", 2: "refunded", 3: "creator paid", 4: "fee collected", 5: "unsold", 6: "closed"}


def life(order=2, **p):
    """One history; the exits happen in the order of the hexadecimal digits, lowest first."""
    need = sorted({NEEDS[int(d, 16)] for d in f"{order:x}"})
    return [R("h_life", need, cost=30, order=order, **p)]
def having(digit, runs):
    """The histories among `runs` in which that exit happens."""
    return [x for x in runs if f"{digit:x}" in f"{x['p']['order']:x}"]
def inits(t, modes=MODES):
    return [x for m in modes for n in ((1, 2, 5) if t else (1, 2)) for x in init(mode=m, nreg=n)]
def fails(t):
    """Histories that end in a failed sale: the buyer is refunded and closes the escrow, the creator takes the tokens back."""
    r = (life(mode=1, nreg=1, steps=3, phase=1, order=0x62) + life(mode=2, nreg=1, steps=1, phase=1, order=0x623)
         + life(mode=0, nreg=1, steps=2, phase=1, order=0x632) + life(mode=1, nreg=2, idx=1, steps=2, phase=1, order=0x623))
    return r + ([x for n in (1, 3) for x in life(mode=0, nreg=1, steps=n, phase=1, order=0x62) + life(mode=1, nreg=3, idx=1, steps=n, phase=1, order=0x623)]
                + life(mode=2, nreg=5, idx=2, steps=1, phase=1, order=0x623) if t else [])
def claims(t, modes=(1, 2)):
    """Histories that end with claims after completion."""
    r = []
    for m in modes:
        r += life(mode=m, nreg=1, steps=0, phase=2, order=0x1) + life(mode=m, nreg=2, idx=1, steps=0, phase=2, order=0x1)
        if t:
            r += life(mode=m, nreg=1, steps=1, phase=2, order=0x1) + life(mode=m, nreg=1, steps=0, phase=2, order=0x11) + life(mode=m, nreg=3, idx=1, steps=0, phase=2, order=0x1)
    return r + (life(mode=0, nreg=1, steps=0, phase=2, order=0x1) + life(mode=1, nreg=1, steps=0, phase=2, order=0x1234) if t else [])
def mixed(t):
    """Claims after everybody else has taken everything."""
    r = life(mode=1, nreg=1, steps=0, phase=2, order=0x1234, vesting=0) + life(mode=2, nreg=2, idx=1, steps=0, phase=2, order=0x1543, vesting=0) + life(mode=0, nreg=1, steps=0, phase=2, order=0x1543, vesting=0)
    return r + (life(mode=2, nreg=2, idx=1, steps=0, phase=2, order=0x1543) + life(mode=1, nreg=2, idx=0, steps=2, phase=2, order=0x1234) if t else [])
def pays(t, modes=MODES):
    """Histories that end with everyone being paid in quote tokens."""
    r = []
    if 1 in modes:
        r += life(mode=1, nreg=1, steps=2, phase=2, order=0x234) + life(mode=1, nreg=2, idx=1, steps=0, phase=2, order=0x342)
    if 2 in modes:
        r += life(mode=2, nreg=1, steps=1, phase=2, order=0x34) + life(mode=0, nreg=1, steps=0, phase=2, order=0x43)
    return r + ([x for m in modes for x in life(mode=m, nreg=1, steps=3 if m == 1 else 1, phase=2, order=0x432 if m == 1 else 0x43)] if t else [])
def closes(t):
    """Histories that end with everything claimed and the escrow closed."""
    r = life(mode=2, nreg=1, steps=0, phase=2, order=0x61, full=1) + life(mode=1, nreg=1, steps=0, phase=2, order=0x612, full=1, vesting=0) + life(mode=0, nreg=1, steps=0, phase=2, order=0x61, full=1, vesting=0)
    return r + (life(mode=1, nreg=2, idx=1, steps=2, phase=2, order=0x621, full=1) + life(mode=2, nreg=1, steps=1, phase=2, order=0x613, full=1) if t else [])
def five(f, modes=(1, 2), t=False, **kw):
    """The largest number of registries, last registry (thorough: also the first and the middle one)."""
    return [x for m in modes for i in ((0, 2, 4) if t else (4,)) for x in f(mode=m, nreg=5, idx=i, **kw)]


def c01(t):
    r = each(dep, t=t) + each(wd, modes=(0, 1), t=t) + each(refund, t=t, phase=1) + each(refund, modes=(1,), t=t, phase=2)
    r += [x for w in (0, 1) for x in each(cwd, t=t, which=w)] + each(fee, t=t) + each(refresh, t=t) + each(close, t=t, modes=(2,))
    r += settle(mode=0, phase=1) + settle(mode=1, phase=1) + settle(mode=0, phase=2) + settle(mode=1, phase=2) + settle(mode=1, phase=2, nreg=2)
    r += settle(mode=1, phase=2, creator_first=1)
    return inits(t, (2,)) + fails(t) + pays(t) + r + (settle(mode=1, phase=2, nreg=3) + settle(mode=1, phase=1, nreg=3) if t else []) + five(dep, t=t) + five(wd, (0, 1), t=t) + five(refund, t=t, phase=1) + five(cwd, t=t, which=0) + five(fee, (0, 2), t=t) + settle(mode=1, phase=1, nreg=5)
def c02(t):
    return inits(t) + claims(t, (2,)) + mixed(t) + each(claim, t=t) + each(unsold, t=t, again=1) + [x for w in (0, 1) for x in each(cwd, t=t, which=w)] + each(vest, t=t, kind=1) + settle_base(mode=2, nreg=1) + settle_base(mode=0, nreg=1) + (settle_base(mode=0, nreg=2) + settle_base(mode=2, nreg=3) if t else []) + five(claim, t=t) + five(unsold, t=t, again=1) + five(cwd, t=t, which=1)
def c03(t):
    return fails(t) + each(dep, t=t) + dep(mode=2, **AUTH) + five(dep, t=t)
def c04(t):
    return inits(t) + each(dep, t=t) + each(wd, modes=(0, 1), t=t) + create(0, nreg=1) + create(1, nreg=1) + five(dep, t=t) + five(wd, (0, 1), t=t) + create(1, nreg=5)
def c05(t):
    return inits(t, (0,)) + [R("h_fixed_args", ["created"])] + dep(mode=0, nreg=1) + dep(mode=0, nreg=1, least=1) + wd(mode=0, nreg=1) + (dep(mode=0, nreg=2) if t else [])
def c06(t):
    return inits(t) + each(dep, t=t) + [R("h_fee_mono", ["two deposits"], mode=1, nreg=1)] + five(dep, t=t)
def c07(t):
    return fails(t) + inits(t, (0,)) + each(wd, t=t) + wd(mode=1, **AUTH) + five(wd, (0, 1), t=t)
def c08(t):
    return inits(t) + (each(dep, t=t) + each(wd, modes=(0, 1), t=t) + each(claim, t=t) + each(refund, t=t) + each(fee, t=t) + each(unsold, t=t)
            + [x for w in (0, 1) for x in each(cwd, t=t, which=w)] + create(0, nreg=1) + create(1, nreg=1)
            + [R("h_merkle_config", ["root registered"]), R("h_merkle_config", ["root closed"], close=1), R("h_metadata", ["metadata registered"])])
def c09(t):
    return inits(t) + claims(t) + each(vest, t=t) + each(vest, t=t, kind=1) + each(claim, t=t) + five(vest, t=t) + five(vest, t=t, kind=1) + five(claim, t=t)
def c10(t):
    return claims(t) + mixed(t) + each(claim, t=t) + [x for m in MODES for x in claim(mode=m, nreg=1, again=1)] + each(refresh, t=t) + claim(mode=2, **AUTH) + five(claim, t=t) + five(refresh, t=t)
def c11(t):
    return fails(t) + each(refund, t=t, phase=1) + each(refund, t=t, phase=1, again=1) + refund(mode=1, **AUTH) + each(close, t=t, phase=1) + five(refund, t=t, phase=1) + five(close, t=t, phase=1)
def c12(t):
    return pays(t, (1,)) + life(mode=1, nreg=1, steps=2, phase=2, order=0x21, vesting=0) + (each(refund, modes=(1,), t=t, phase=2) + refund(mode=1, nreg=1, phase=2, again=1) + refund(mode=0, nreg=1, phase=2) + refund(mode=2, nreg=1, phase=2)
            + [R("h_refund_fair", ["two refunds"], mode=1, nreg=1, cost=30)]) + refund(mode=1, nreg=5, idx=4, phase=2)
def c13(t):
    return inits(t) + having(3, fails(t) + pays(t)) + [x for w in (0, 1) for x in each(cwd, t=t, which=w, again=1)] + [x for w in (0, 1) for x in cwd(mode=1, which=w, **AUTH)] + five(cwd, t=t, which=0, again=1) + five(cwd, t=t, which=1, again=1)
def c14(t):
    return inits(t) + pays(t) + fails(t) + each(fee, t=t, quick=(1, 2), full=(1, 2, 3)) + each(fee, t=t, again=1) + fee(mode=1, **AUTH) + five(fee, (0, 2), t=t) + five(fee, (0, 2), t=t, again=1) + fee(mode=1, nreg=3, idx=1)
def c15(t):
    return inits(t) + having(5, mixed(t)) + each(unsold, t=t, quick=(1, 2), full=(1, 2, 3)) + each(unsold, t=t, again=1) + [R("h_unsold", ["unsold action"], mode=0, fixowner=1, **AUTH)] + five(unsold, t=t) + five(unsold, t=t, again=1) + unsold(mode=0, nreg=3, idx=1)
def c16(t):
    return fails(t) + closes(t) + ([x for ph in (1, 2, 3) for x in each(close, t=t, phase=ph)] + close(mode=1, **AUTH)
            + create(0, nreg=1) + create(1, nreg=1) + [R("h_create_escrow", ["rejected"], kind=0, existing=1, nreg=1)]) + five(close, (0, 2), t=t, phase=2) + five(close, t=t, phase=1) + create(1, nreg=5)
def c17(t):
    return inits(t) + claims(t, (2,)) + each(dep, t=t) + each(wd, modes=(0, 1), t=t) + five(dep, t=t) + five(wd, (0, 1), t=t)
def c18(t):
    return inits(t) + (create(0, nreg=1) + create(1, nreg=1) + create(1, nreg=2) + create(0, auth=1, nreg=1) + create(1, auth=1, nreg=1)
            + [R("h_create_escrow", ["rejected"], kind=0, existing=1, nreg=1)]
            + [R("h_operator", ["appointed"]), R("h_operator", ["revoked"], revoke=1), R("h_merkle_config", ["registered"])]
            + create(2, nreg=2, depth=1) + [R("h_tree_sound", ["tried"], n=2, j=0, len=1), R("h_tree_sound", ["tried"], n=2, j=2, len=1)]
            + (create(2, nreg=2, depth=2) if t else [])) + create(1, nreg=5)
def c19(t):
    r = [R("h_tree", ["tree built", "buyer admitted"], n=n, j=j, cost=n * n) for n in ((1, 2, 3, 4, 5, 6) if t else (1, 2, 3, 4)) for j in range(n)]
    r += [R("h_tree", ["tree built", "buyer admitted"], n=5, j=4, cost=25)]
    r += [R("h_tree", ["tree built", "buyer admitted"], n=2, j=j, map=1, version=v) for j in (0, 1) for v in (0, 3 << 40)]
    r += [R("h_tree", ["tree built", "buyer admitted"], n=n, j=j, dup=1) for n, j in ((2, 0), (3, 0), (3, 1))]
    big = ((7, 6), (8, 0), (9, 8), (9, 4), (17, 16), (33, 32)) + (((16, 9), (22, 19)) if t else ())
    r += [R("h_tree", ["tree built", "buyer admitted"], n=n, j=j, conc=1, cost=20) for n, j in big]
    s = [(1, 0, 0), (1, 0, 1), (1, 1, 0), (2, 0, 0), (2, 0, 1), (2, 1, 1), (2, 2, 1), (2, 0, 2), (3, 2, 2), (3, 3, 2)] + ([(3, 0, 2), (3, 1, 1), (3, 1, 2), (4, 1, 2), (4, 3, 2), (4, 4, 2)] if t else [])
    wide = ((4, 1, 2), (4, 4, 2), (5, 4, 3), (5, 1, 1), (5, 1, 3)) + (((8, 3, 3), (9, 8, 3)) if t else ())
    r += [R("h_tree_sound", ["tried"], n=n, j=j, len=l, conc=1, cost=15) for n, j, l in wide]
    return r + [R("h_tree_sound", ["tried"], n=n, j=j, len=l, cost=l * n) for n, j, l in s]
def c20(t):
    r = [x for m in MODES for n in ((1, 2, 3, 5) if t else (1, 2)) for x in init(mode=m, nreg=n)]
    r += [x for m in MODES for x in init(mode=m, nreg=5, vesting=0)] + [x for m in MODES for t2 in (1, 2, 3) for x in init(mode=m, nreg=1, vesting=0, t22=t2)]
    r += [x for m in MODES for n in (0, 6) for x in init("rejected", mode=m, nreg=n)] + init("rejected", mode=3) + [x for m in MODES for x in init("rejected", mode=m, existing=1)]
    return r + init(mode=2, auth=1) + init(mode=0, auth=1) + [R("h_fixed_args", ["created"])]
def c22(t):
    r = fm(init, mode=1) + fm(init, mode=2) + fm(dep, mode=1) + fm(dep, mode=2, vesting=0) + (fm(dep, mode=0) if t else [])
    r += fm(wd, mode=1) + fm(refund, mode=1, phase=1) + fm(refund, mode=1, phase=2) + fm(cwd, mode=2, which=0) + fm(cwd, 2, mode=2, which=1)
    r += fm(claim, 2, mode=2) + fm(claim, 2, mode=1) + fm(fee, mode=1) + fm(unsold, 2, mode=0)
    return r
def c21(t):
    r = dep(mode=2, **AUTH) + wd(mode=1, **AUTH) + claim(mode=2, **AUTH) + refresh(mode=2, **AUTH) + refund(mode=1, **AUTH)
    r += [x for w in (0, 1) for x in cwd(mode=1, which=w, **AUTH)] + fee(mode=1, **AUTH) + close(mode=1, **AUTH)
    r += [R("h_unsold", ["unsold action"], mode=0, fixowner=1, **AUTH)] + create(0, auth=1, nreg=1) + create(1, auth=1, nreg=1)
    r += init(mode=2, auth=1) + init(mode=0, auth=1) + init("rejected", mode=2, existing=1)
    return r + config(1)
def config(auth):
    return [R("h_operator", ["appointed"], auth=auth), R("h_operator", ["revoked"], revoke=1, auth=auth),
            R("h_merkle_config", ["registered"], auth=auth), R("h_merkle_config", ["root closed"], close=1, auth=auth),
            R("h_metadata", ["registered"], auth=auth), R("h_metadata", ["metadata closed"], close=1, auth=auth),
            R("h_fixed_args", ["created"], auth=auth), R("h_fixed_args", ["args closed"], close=1, auth=auth)]
def c24(t):
    return inits(t) + fails(t) + claims(t) + pays(t) + mixed(t) + closes(t) + (each(wd, modes=(0, 1), t=t) + each(claim, t=t) + each(refund, t=t, phase=1) + each(refund, modes=(1,), t=t, phase=2)
            + each(cwd, t=t, which=0) + each(cwd, t=t, which=1) + each(fee, t=t) + each(unsold, t=t) + [x for ph in (1, 2, 3) for x in each(close, t=t, phase=ph)]
            + each(vest, t=t) + each(refresh, t=t) + settle(mode=0, phase=1) + settle(mode=1, phase=1) + settle(mode=0, phase=2) + settle(mode=1, phase=2) + settle_base(mode=2, nreg=1) + memo(wd, mode=1) + memo(refund, mode=1, phase=1) + memo(claim, mode=2)
            + memo(cwd, mode=2, which=0) + memo(cwd, mode=2, which=1) + memo(fee, mode=1) + memo(unsold, mode=0)
            + (settle_base(mode=0, nreg=1) + settle(mode=1, phase=2, nreg=2) if t else [])) + five(wd, (0, 1), t=t) + five(claim, t=t) + five(refund, t=t, phase=1) + five(fee, (0, 2), t=t) + five(unsold, t=t) + five(close, (2,), t=t, phase=2)
def c25(t):
    f = (2, 3, 5)
    r = each(dep, modes=(1, 2), t=t, quick=(2,), both=True, full=f) + dep(mode=0, nreg=2, idx=1) + each(wd, modes=(0, 1), t=t, quick=(2,), both=True, full=f)
    r += each(claim, modes=(1, 2), t=t, quick=(2,), both=True, full=f) + each(refund, modes=(1,), t=t, quick=(2,), both=True, full=(2, 3), phase=2) + each(refund, modes=(1,), t=t, quick=(2,), both=True, full=f, phase=1)
    r += claim(mode=0, nreg=2, idx=1) + unsold(mode=0, nreg=2, idx=1)
    r += each(close, modes=(2,), t=t, quick=(2,), both=True, full=f) + create(1, nreg=2) + each(refresh, modes=(2,), t=t, quick=(2,), both=True, full=f)
    r += each(fee, modes=(1,), t=t, quick=(2,), both=True, full=(2, 3)) + each(unsold, modes=(2,), t=t, quick=(2,), both=True, full=f) + each(cwd, modes=(2,), t=t, quick=(2,), both=True, full=f, which=0)
    return fails(t) + r + init(mode=2, nreg=2) + five(dep, t=t) + five(wd, (0, 1), t=t) + five(claim, t=t) + five(refund, t=t, phase=1) + five(refund, (1,), t=t, phase=2) + five(close, (2,), t=t) + five(refresh, (2,), t=t) + five(fee, (0, 2), t=t) + five(unsold, (2,), t=t) + five(cwd, (2,), t=t, which=0) + create(1, nreg=5) + init(mode=2, nreg=5)
def c23(t):
    r = [R("h_ext", ["accepted", "rejected"], side=s, len=l, n=1) for s in (0, 1) for l in (64, 108)]
    r += [R("h_ext", ["accepted", "rejected"], side=s, n=2, cost=5) for s in (0, 1)] + [R("h_ext", ["rejected"], side=s, native=1) for s in (0, 1)]
    for ix in range(10):
        h = 2 if ix in (2, 7, 8, 9) else 1
        r += [R("h_slices", ["accepted", "rejected"], ix=ix, hook=0, ns=1), R("h_slices", ["accepted", "rejected"], ix=ix, hook=h, ns=1, meta=1)]
        r += [R("h_slices", ["accepted", "rejected"], ix=ix, hook=h, ns=2, cost=3), R("h_slices", ["rejected"], ix=ix, hook=h, ns=0, avail=1)]
        if t:
            r += [R("h_slices", ["accepted", "rejected"], ix=ix, hook=0, ns=2, cost=3), R("h_slices", ["accepted", "rejected"], ix=ix, hook=h, ns=3, meta=1, cost=30)]
    return r + ([R("h_ext", ["accepted", "rejected"], side=s, n=3, cost=90, o=dict(max_paths=100000)) for s in (0, 1)] if t else [])
def c27(t):
    f = (1, 2)
    r = each(dep, t=t) + each(wd, modes=(0, 1), t=t) + each(claim, modes=(2,), t=t) + each(refund, modes=(1,), t=t, phase=1) + refund(mode=1, nreg=1, phase=2)
    r += [x for w in (0, 1) for x in each(cwd, modes=(1,), t=t, which=w)] + each(fee, modes=(1,), t=t) + each(unsold, modes=(0,), t=t) + each(refresh, modes=(2,), t=t)
    r += close(mode=2, nreg=1, phase=2) + close(mode=2, nreg=1, phase=1) + create(0, nreg=1) + create(1, nreg=2)
    r += [x for x in config(0) if not x["p"].get("revoke")] + [x for m in MODES for x in init(mode=m, nreg=2)] + init(mode=2, nreg=5, vesting=0)
    return r + fm(wd, mode=1) + fm(refund, mode=1, phase=1) + fm(claim, 2, mode=2) + fm(cwd, mode=2, which=0) + fm(fee, mode=1)
def c26(t):
    return config(0) + config(1)


TABLE = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
LIFE = "histories (h_life): one buyer, one or two deposits, at most one withdrawal, arbitrary other buyers, up to five exits in the listed orders, each step at its own symbolic time"
BOUNDS = {p: [LIFE] for p in ("C01", "C02", "C03", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C24", "C25")}
BOUNDS["C19"] = ["lists of 1 to 5 (thorough 6) entries, all symbolic; of 7 to 17 (thorough 33) entries with one symbolic entry; foreign proofs of 0 to 3 hashes"]
BOUNDS["C18"] = ["merkle proofs of 1 (thorough 2) hashes"]
BOUNDS["C23"] = ["mints with 1 or 2 (thorough 3) extensions of any type; 0 to 2 (thorough 3) declared slices over 3 extra accounts"]
NOTES = {}
NA = {}
