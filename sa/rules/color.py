from facts import *
import itertools
import strs

CSS = """aqua black blue fuchsia gray green lime maroon navy olive purple red silver teal white yellow aliceblue antiquewhite
aquamarine azure beige bisque blanchedalmond blueviolet brown burlywood cadetblue chartreuse chocolate coral cornflowerblue
cornsilk crimson cyan darkblue darkcyan darkgoldenrod darkgray darkgreen darkgrey darkkhaki darkmagenta darkolivegreen
darkorange darkorchid darkred darksalmon darkseagreen darkslateblue darkslategray darkslategrey darkturquoise darkviolet
deeppink deepskyblue dimgray dimgrey dodgerblue firebrick floralwhite forestgreen gainsboro ghostwhite gold goldenrod
greenyellow grey honeydew hotpink indianred indigo ivory khaki lavender lavenderblush lawngreen lemonchiffon lightblue
lightcoral lightcyan lightgoldenrodyellow lightgray lightgreen lightgrey lightpink lightsalmon lightseagreen lightskyblue
lightslategray lightslategrey lightsteelblue lightyellow limegreen linen magenta mediumaquamarine mediumblue mediumorchid
mediumpurple mediumseagreen mediumslateblue mediumspringgreen mediumturquoise mediumvioletred midnightblue mintcream
mistyrose moccasin navajowhite oldlace olivedrab orange orangered orchid palegoldenrod palegreen paleturquoise
palevioletred papayawhip peachpuff peru pink plum powderblue rebeccapurple rosybrown royalblue saddlebrown salmon
sandybrown seagreen seashell sienna skyblue slateblue slategray slategrey snow springgreen steelblue tan thistle tomato
transparent turquoise violet wheat whitesmoke yellowgreen""".split()


def C30(F, R):
    ch = {c: mk("sym", c) for c in ("red", "green", "blue")}
    names = [f for f in F.fields("RGBColor")]
    if set(names) != set(ch):
        raise Missing("components of RGBColor: %s" % names)
    rgb = F.mk("RGBColor", **ch)
    where = "Display of RGBColor"
    t = F.display("RGBColor", rgb)
    want = lambda d: "#%02X%02X%02X" % (d["red"], d["green"], d["blue"])
    R.count("colour components")
    if t is None:
        R.bad("RGB colors print", "never returns", where)
    else:
        # Every component is written by a part of the text of its own: all its values are tried in that part.
        ok = True
        few = (0, 1, 7, 10, 15, 16, 17, 100, 127, 128, 171, 205, 240, 254, 255)
        tried = [dict({k: other for k in ch}, **{c: n}) for c in ch for n in range(256) for other in (0, 0x5A, 255)]
        tried += [dict(zip(("red", "green", "blue"), x)) for x in itertools.product(few, few, few)] + [{k: n for k in ch} for n in range(256)]
        for d in tried:
            try:
                try:
                    s = strs.text(sub(t, {ch[k]: num(x) for k, x in d.items()}))
                except strs.Stuck:
                    x = F.display("RGBColor", F.mk("RGBColor", **{k: num(x) for k, x in d.items()}))
                    s = strs.text(x) if x is not None else "nothing"
            except strs.Stuck as e:
                R.unknown("text of an RGB color", "not understood: " + show(e.args[0], 4))
                ok = None
                break
            R.count("component values evaluated")
            if s != want(d):
                R.bad("RGB colors print as #RRGGBB", "%s prints as %s" % (d, s), where)
                ok = False
                break
        if ok:
            indep = t.op == "str" and all(len([x for x in support(s) if x.op == "sym"]) <= 1 for s in t.args[0])
            R.check(True if indep else None, "RGB colors print as # and the three two-digit upper-case components", "the components are not written independently of each other")
    # named colors
    for v in F.variants("NamedColor"):
        x = F.mk("NamedColor", v)
        try:
            s = strs.text(F.display("NamedColor", x))
        except strs.Stuck as e:
            R.unknown("text of named color %s" % v)
            continue
        R.count("named colors")
        R.check(s.lower() == v.lower() and s.lower() in CSS, "named color %s prints as the CSS keyword for it" % v, "prints as %r" % s, "Display of NamedColor")
    # the union
    vs = F.variants("WebColor")
    if "RGB" not in vs or "Named" not in vs:
        raise Missing("variants of WebColor: %s" % vs)
    n = F.tyname("WebColor")
    a = F.display("WebColor", adt(n, "RGB", rgb))
    R.check(same_text(a, t), "an RGB web color prints as its RGB color", "prints as %s" % show(a, 6), "Display of WebColor")
    for v in F.variants("NamedColor"):
        x = F.mk("NamedColor", v)
        a, b = F.display("WebColor", adt(n, "Named", x)), F.display("NamedColor", x)
        R.check(same_text(a, b), "web color %s prints as the named color" % v, "prints as %s" % show(a, 6), "Display of WebColor")
    c = F.val("RGBColor", "new", ch["red"], ch["green"], ch["blue"])
    R.check(c is rgb, "RGBColor::new keeps the components in order", show(c), "RGBColor::new")


def same_text(a, b):
    if a is b:
        return True
    if a is None or b is None or opaque_ops(a) or opaque_ops(b):
        return None if a is not None and b is not None else False
    return False
