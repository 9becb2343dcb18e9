"""Banners between the statements of generated configurations: whatever they contain, the model is the one without them."""
from .cfgs import *

DELIMS = ["^C", "^C", "#", "@", "%", "$", "~", "^", "C", "a", "Z", "0", "9", '"', "'", "!", ":", ".", "*", "+", "?", "|", "\\", "/", "(", ")", "[", "]", "{", "}", "-", "_", "&", ",", ";", "<", "=", ">", "`",
          "\x03", "\x00", "\x7f", "\xa7", "\xe9", "\u20ac", "\u4e2d", "\U0001f600"]
LINES = ["hostname banner", "end", "line vty 0 4", "!", "access-list 101 permit ip any any", "ip access-list extended banner", " permit ip any any", "interface FastEthernet9/9", " ip address 192.0.2.1 255.255.255.0",
         "object-group network banner", " host 192.0.2.1", "ip route 0.0.0.0 0.0.0.0 192.0.2.2", "ip domain name banner.example", "banner motd #", "banner motd ^C", "#", "^", "^^", "^ C", "C", "^c", "^C", "^^C", "^^^C", "",
         "  Unauthorized access is prohibited", "Zugriff nur f\xfcr Befugte \xa7 202a", "\u20ac 5", "a^Cb", "no more", "ipv6 access-list banner", "\u4e2d\u6587", "\\d", "[a-z]*", "\t", "x" * 300]


def banner(r):
    d = r.choice(DELIMS)
    if r.random() < 0.2:
        d = chr(r.choice((r.randrange(0x20, 0x100), r.randrange(0x100, 0xD800), r.randrange(0xE000, 0x110000))))
    if d.isspace():
        d = "#"
    t = "\n".join(r.choice(LINES) for _ in range(r.choice((0, 1, 1, 2, 3, 6))))
    if r.random() < 0.6:
        t = "\n" + t + "\n"
    if r.random() < 0.3:
        t += r.choice(("^", "^^", "^^^", "C", d[:1], d[0].swapcase()))
    # the text is what is before the next delimiter
    while d in t:
        t = t.replace(d, r.choice(("", "x"))) if d != "x" else t.replace(d, "")
    if d != "^C" and (d + t).startswith("^C"):
        t = "x" + t if d != "x" else "y" + t
    # no text that ends with the beginning of its delimiter makes that delimiter begin earlier
    while (t + d).find(d) < len(t):
        t = t[:-1]
    return f"banner motd {d}{t}{d}"


def places(lines):
    """before which lines a statement can begin"""
    def inner(i):
        # a line of a block, or the entry a remark belongs to
        w = lines[i - 1].split() if i else []
        return lines[i][:1] in (" ", "") or (w[:1] == ["access-list"] and "remark" in w[2:3])

    return [i for i in range(len(lines)) if not inner(i)] + ([] if lines and lines[-1] == "end" else [len(lines)])


def with_banners(r, s, n):
    """n banners at places where a statement can begin"""
    L = s.rstrip("\n").split("\n")
    at = [r.choice(places(L)) for _ in range(n)]
    out = []
    for i in range(len(L) + 1):
        out += [banner(r) for a in at if a == i]
        out += L[i:i + 1]
    return "\n".join(out) + "\n"


def judge(ctx, what, s, want):
    ctx.case(s)
    try:
        got = ios.tables(parse(iosConfig, s))
    except Exception as e:
        ctx.fail(what + ": accepted", "a configuration", f"{type(e).__name__}: {str(e)[:300]}")
        return
    ctx.ok(what + ": accepted", True)
    compare(ctx, what, want, got)


SMALL = "hostname a\ninterface Vlan1\n ip address 10.0.0.1 255.255.255.0\naccess-list 7 permit 10.0.0.0 0.0.0.255\n"


def run(ctx):
    ctx.part("texts", "every delimiter of the list around texts of its neighbourhood")
    base = ios.tables(parse(iosConfig, SMALL))
    a, b = SMALL.split("interface", 1)
    n = 0
    for d in dict.fromkeys(DELIMS):
        for t in ("", "x", "\nend\n", "\nhostname b\naccess-list 8 permit any\n", "\n^^", "\n^^^", "^ C", "\n\\", "\n]", "\n\u20ac\n"):
            if not ctx.left(0.4):
                break
            if d in t or (t + d).find(d) < len(t) or (d != "^C" and (d + t + d).startswith("^C")):
                continue
            n += 1
            judge(ctx, "a banner is no part of the model", f"{a}banner motd {d}{t}{d}\ninterface{b}", base)
    ctx.part("configurations", "generated configurations with 1 to 3 banners of random delimiters and text, against the model without them")
    k = 0
    while ctx.left(1) and k < cap(ctx, 500):
        k += 1
        g = ios.Gen(ctx.rng)
        s = with_banners(ctx.rng, g.config(defs=4, uses=6), ctx.rng.choice((1, 1, 2, 3)))
        want = ios.expected(g)
        judge(ctx, "the model of the configuration around the banners", s, want)
