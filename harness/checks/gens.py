"""Shared monitor of C20-C22: one transmission of a stream generator, word by word."""


def receive(ctx, b, dom, S, DN, words, what, pready, extra=None, ST=None):
    """Accept `words` = [(payload, first, last, valid)], starting in the cycle after the start strobe.
    Returns when the transmission is over and the done pulse was seen."""
    rng = ctx.rng
    got = 0
    waited = 0
    t = 0
    strobes = rng.choice([0, 0, .1, .5, 1])     # further starts while sending have no effect
    while got < len(words):
        rdy = int(rng.random() < pready)
        S["ready"].set(rdy)
        if extra:
            extra()
        if ST is not None and strobes:
            ST.set(int(rng.random() < strobes))
            ctx.ev("ignored_starts", ST.get())
        b.settle()
        v = S["valid"].get()
        ctx.eq(DN.get(), 0, "done", f"{what}: done after {got} of {len(words)} words")
        if v:
            pay, first, last, vm = words[got]
            ctx.eq(v, vm, "valid", f"{what}: valid of word {got} of {len(words)}")
            if pay is not None:
                mask = S["mask"](vm)
                ctx.eq(S["payload"].get() & mask, pay & mask, "payload", f"{what}: payload of word {got} of {len(words)}")
            ctx.eq(S["first"].get(), first, "first", f"{what}: first of word {got} of {len(words)}")
            ctx.eq(S["last"].get(), last, "last", f"{what}: last of word {got} of {len(words)}")
            waited = 0
            if rdy:
                got += 1
                ctx.ev("words")
            else:
                ctx.ev("held")
        else:
            waited += 1
            ctx.check(waited <= 8, "stuck", f"{what}: only {got} of {len(words)} words come out")
        b.tick(dom)
        t += 1
        if t > 60 + 80 * len(words) and pready >= .05:
            ctx.fail("stuck", f"{what}: {got} of {len(words)} words after {t} cycles")
    if ST is not None:
        ST.set(0)
    for k in range(8):
        S["ready"].set(rng.getrandbits(1))
        b.settle()
        ctx.eq(S["valid"].get(), 0, "extra", f"{what}: valid after the last of {len(words)} words")
        d = DN.get()
        b.tick(dom)
        if d:
            ctx.ev("done")
            return
    ctx.fail("done", f"{what}: no done pulse after the last of {len(words)} words")


def idle(ctx, b, dom, S, DN, n, what):
    for _ in range(n):
        S["ready"].set(ctx.rng.getrandbits(1))
        b.settle()
        ctx.eq(S["valid"].get(), 0, "idle", f"{what}: valid without a start")
        ctx.eq(DN.get(), 0, "idle", f"{what}: done without a transmission")
        ctx.ev("idle_cycles")
        b.tick(dom)


def ports(b, stream, nvalid, width):
    S = {k: b.port(stream[k]) for k in ("valid", "ready", "first", "last", "payload")}

    def mask(vm):
        if nvalid == 1:
            return (1 << width) - 1
        bpv = width // nvalid
        return sum(((1 << bpv) - 1) << (bpv * i) for i in range(nvalid) if vm >> i & 1)
    S["mask"] = mask
    return S
