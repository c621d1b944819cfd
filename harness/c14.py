"""C14: each language's captions stay under their language, in document order."""
import os
DEFAULT = "de-CH"
os.environ["PYCAPTION_DEFAULT_LANG"] = DEFAULT      # the configured default language (read when pycaption is imported)

from pycaption import DFXPReader, SAMIReader  # noqa: E402
from refs import samip, srtp, ttml, vttp  # noqa: E402
from refs.common import clean_lines  # noqa: E402
from harness.common import mk, node_text, reader, writer  # noqa: E402

BOUNDS = ("caption sets of 1..4 languages (names that are prefixes, dash-prefixes, substrings and case variants of each other included; "
          "every order of the list) with 0..3 cues per language (in total up to 4, thorough 5); start and end times symbolic on the 1 ms "
          "grid over a whole day, sorted and non-overlapping within a language, otherwise unrelated (every interleaving, coincidence "
          "and gap of starts and ends across languages is a path or solver-decided); SAMI and DFXP documents with cues in any block, "
          "languages by class, lang attribute or none; up to three DFXP divs with and without xml:lang, tt with and without xml:lang; "
          "lang=/force= options; configured default language de-CH (PYCAPTION_DEFAULT_LANG)")
OUTSIDE = ("times off the millisecond grid (C02); SAMI lang attributes are read as their first two letters (pinned by the existing tests), "
           "so two region variants given as lang attributes count as one language; SAMI end times of the last cue")
ASSUMPTIONS = []
REACH = ["sami-before", "sami-same", "sami-after", "sami-blank", "empty-primary", "force", "force-missing", "default", "tt-lang",
         "repeated-div", "nested-div", "class", "attr", "none", "read-back"]
DAYMS = 86400000
FULL = (0, DAYMS - 1)
EDGE = (90000, 120000)          # 5 and 6 digits
FRAMES = (4000, 39999)          # MicroDVD frame numbers of three digits


def times(t, name, n, rng=FULL):
    """n sorted, non-overlapping intervals in ms; touching or with gaps"""
    out = []
    last = None
    for i in range(n):
        s, e = t.int(f"{name}s{i}", *rng), t.int(f"{name}e{i}", *rng)
        t.assume(s < e)
        if last is not None:
            t.assume(last <= s)
        last = e
        out.append((s, e))
    return out


def build(t, langs, counts, rng=FULL):
    data, caps = {}, {}
    for k, (l, n) in enumerate(zip(langs, counts)):
        ts = times(t, f"l{k}", n, rng)
        data[l] = [(s, e, f"{'pqrs'[k]}{i}") for i, (s, e) in enumerate(ts)]
        caps[l] = [(s * 1000, e * 1000, [x]) for s, e, x in data[l]]
    return data, mk(caps)


def joined(lines):
    return "\n".join(clean_lines(lines))


def check_set(t, label, cs, want_langs, want):
    """languages, and per language the (start, text) list"""
    got = list(cs.get_languages())
    t.check(label + ": languages in order of first appearance", got == want_langs, detail=lambda: [got, want_langs])
    if sorted(got) != sorted(want_langs):
        return False
    for l in want_langs:
        g = [(c.start, node_text(c.nodes).strip()) for c in cs.get_captions(l)]
        t.check(label + ": cues of the language", len(g) == len(want[l]) and [x for _, x in g] == [x for _, x in want[l]],
                detail=lambda: [l, g, want[l]])
        if len(g) == len(want[l]):
            t.check(label + ": starts of the language", t.all([a == b for (a, _), (b, _) in zip(g, want[l])]),
                    detail=lambda: [l, g, want[l]])
    return True


def sami_write(langs, counts, rng, classes=False):
    def run(t):
        data, cs = build(t, langs, counts, rng)
        if classes:
            # a style that names the language, used by some of the captions
            cs.set_styles({"cc0": {"lang": langs[0]}, "cc1": {"lang": langs[1], "color": "red"}, "other": {"color": "blue"}})
            for k, l in enumerate(langs):
                for i, c in enumerate(cs.get_captions(l)):
                    c.style = t.pick(f"class{k}{i}", [{}, {"class": f"cc{k}"}, {"class": "other"}])
        doc = writer("sami").write(cs)
        d = samip.parse(doc)
        st = [s for s, _ in d.syncs]
        t.check("SYNC blocks in non-decreasing time order", t.all([a <= b for a, b in zip(st, st[1:])]), detail=lambda: doc)
        first = []
        per = {l: [] for l in langs}
        stray = False
        for s, ps in d.syncs:
            for p in ps:
                l = samip.lang_of(d, p)
                if l not in per:
                    stray = True
                    continue
                if l not in first:
                    first.append(l)
                per[l].append((s, samip.blank(p), joined(samip.par_text(p))))
        t.check("every paragraph belongs to a language of the set", not stray, detail=lambda: doc)
        if stray:
            return
        for l in langs:
            cues = [(s, x) for s, b, x in per[l] if not b]
            t.check("the language's paragraphs", [x for _, x in cues] == [x for _, _, x in data[l]],
                    detail=lambda: [l, doc])
            if len(cues) == len(data[l]):
                t.check("paragraph in the block of its start", t.all([a == s for (a, _), (s, _, _) in zip(cues, data[l])]),
                        detail=lambda: [l, doc])
            # a blank paragraph closes a cue at its end
            blanks = [s for s, b, _ in per[l] if b]
            want = [e for (s, e, _), (s2, _, _) in zip(data[l], data[l][1:]) if e != s2]
            if blanks:
                t.reach("sami-blank")
            t.check("blank paragraphs stand at the ends of cues",
                    len(blanks) == len(want) and t.all([a == b for a, b in zip(blanks, want)]), detail=lambda: [l, doc])
        if len(langs) > 1 and data[langs[0]] and data[langs[1]]:
            a, b = data[langs[0]][0][0], data[langs[1]][0][0]
            t.reach("sami-before" if b < a else "sami-same" if b == a else "sami-after")
        if not data[langs[0]]:
            t.reach("empty-primary")
        if not first:
            return
        back = SAMIReader().read(doc)
        t.reach("read-back")
        check_set(t, "SAMI round trip", back, first,
                  {l: [(s * 1000, x) for s, _, x in data[l]] for l in first})
    return run


def dfxp_write(name, langs, counts):
    def run(t):
        data, cs = build(t, langs, counts)
        force = t.pick("force", [""] + langs + ["xx"])
        doc = writer(name).write(cs, force=force)
        d = ttml.parse(doc)
        want = [force] if force in langs else langs
        if name == "dfxp-legacy" and force == "xx":
            # the legacy writer falls back to its last language
            want = langs[-1:]
        t.reach("force" if force in langs else "force-missing")
        t.check("divs in language order", [l for l, _, _ in d.divs] == want, detail=lambda: doc)
        if [l for l, _, _ in d.divs] != want:
            return
        for l, cues, _ in d.divs:
            t.check("cues of the div", [joined(c.lines) for c in cues] == [x for _, _, x in data[l]], detail=lambda: [l, doc])
            if len(cues) == len(data[l]):
                t.check("times of the div", t.all([c.start == s * 1000 and c.end == e * 1000
                                                   for c, (s, e, _) in zip(cues, data[l])]), detail=lambda: [l, doc])
        if any(data[l] for l in want):
            back = DFXPReader().read(doc)
            t.reach("read-back")
            check_set(t, "DFXP round trip", back, want, {l: [(s * 1000, x) for s, _, x in data[l]] for l in want})
    return run


def plain_write(langs, counts):
    """SRT, MicroDVD (all languages, one after another) and WebVTT (one language)"""
    def run(t):
        data, cs = build(t, langs, counts, FRAMES)
        doc = writer("srt").write(cs)
        parts = doc.split("MULTI-LANGUAGE SRT\n")
        nonempty = [l for l in langs]
        t.check("SRT: one part per language", len(parts) == len(nonempty), detail=lambda: doc)
        if len(parts) == len(nonempty):
            for l, part in zip(nonempty, parts):
                cues = srtp.parse(part) if part.strip() else []
                t.check("SRT: the part holds the language's cues",
                        [joined(c.lines) for c in cues] == [x for _, _, x in data[l]], detail=lambda: [l, doc])
                if len(cues) == len(data[l]):
                    t.check("SRT: times", t.all([c.start == s * 1000 for c, (s, _, _) in zip(cues, data[l])]), detail=lambda: doc)
        which = t.pick("lang", [None] + langs)
        doc = writer("webvtt").write(cs) if which is None else writer("webvtt").write(cs, lang=which)
        l = which if which is not None else langs[0]
        cues = vttp.parse(doc) if any(data.values()) else []
        t.check("WebVTT: the named language's cues", [joined(c.lines) for c in cues] == [x for _, _, x in data[l]], detail=lambda: [l, doc])
        if len(cues) == len(data[l]):
            t.check("WebVTT: times", t.all([c.start == s * 1000 and c.end == e * 1000 for c, (s, e, _) in zip(cues, data[l])]),
                    detail=lambda: doc)
        doc = writer("microdvd").write(cs)
        order = [x for l in langs for _, _, x in data[l]]
        at = [doc.find("}" + x) for x in order]
        t.check("MicroDVD: cues language by language", t.all([x >= 0 for x in at]) and t.all([a < b for a, b in zip(at, at[1:])]),
                detail=lambda: doc)
    return run


def read_lang(name):
    """single-language readers put everything under the language they are told"""
    def run(t):
        data, cs = build(t, ["en-US"], [2], FRAMES)
        doc = writer(name).write(cs)
        l = t.pick("lang", ["fr", "en", "x-" + t.text("l", 2, "az")])
        back = reader(name).read(doc, lang=l)
        t.check("only the named language", list(back.get_languages()) == [l], detail=lambda: list(back.get_languages()))
        t.check("all cues", [node_text(c.nodes).strip() for c in back.get_captions(l)] == ["p0", "p1"])
    return run


SAMI_LANGS = [[("ENCC", "en-US"), ("FRCC", "fr")], [("AA", "en"), ("BB", "en-US")], [("BB", "en-US"), ("AA", "en")],
              [("eng", "eng"), ("en", "en")], [("c1", "de-CH"), ("c2", "de")]]


def sami_read(kinds, blocks):
    """paragraphs, each of any language by class (0/1: the languages of the table, upper case: class in another case), lang
    attribute (a), unknown class (u) or none (-), grouped into sync blocks"""
    def run(t):
        table = t.pick("languages", SAMI_LANGS[:3], SAMI_LANGS[3:])
        head = "<SAMI><HEAD><STYLE TYPE=\"text/css\"><!--\nP { margin-left: 1%; }\n"
        for c, l in table:
            head += f".{c} {{ Name: x; lang: {l}; }}\n"
        body = "--></STYLE></HEAD><BODY>\n"
        want, order = {}, []
        last = None
        s = None
        i = 0
        closed = t.flag("closed")
        for b in blocks:
            s = t.int(f"t{i}", *(EDGE if sum(blocks) < 3 else (10000, 99999)))
            if last is not None:
                t.assume(last < s)
            last = s
            body += f"<SYNC Start={s}>"
            for _ in range(b):
                kind = t.pick(f"kind{i}", kinds)
                if kind in ("0", "1", "K"):
                    c, l = table[int(kind) if kind != "K" else 1]
                    at = f" Class={c if kind != 'K' else c.swapcase()}"
                    t.reach("class")
                elif kind == "-":
                    at, l = "", DEFAULT
                    t.reach("none")
                elif kind == "u":
                    at, l = " Class=other", DEFAULT
                else:
                    at, l = f' lang="{kind}"', kind[:2]
                    t.reach("attr")
                blank = t.flag(f"blank{i}") if i + 1 == sum(blocks) and i > 0 else False
                body += f"<P{at}>{'&nbsp;' if blank else 'w' + str(i)}</P>"
                if l not in want:
                    want[l] = []
                    order.append(l)
                if not blank:
                    want[l].append((s * 1000, f"w{i}"))
                i += 1
            body += "</SYNC>\n" if closed else "\n"
        doc = head + body + "</BODY></SAMI>"
        back = SAMIReader().read(doc)
        check_set(t, "SAMI read", back, order, want)
        for l in order:
            for c in back.get_captions(l):
                t.check("SAMI read: end after start", c.start < c.end)
    return run


def dfxp_read(ndivs, nest):
    def run(t):
        ttl = t.pick("tt", [None, "en", "fr-FR"])
        doc = '<tt xmlns="http://www.w3.org/ns/ttml"' + (f' xml:lang="{ttl}"' if ttl is not None else "") + "><body>"
        want, order = {}, []
        i = 0
        for k in range(ndivs):
            l = t.pick(f"div{k}", [None, "en", "en-US", "fr-FR"])
            n = t.pick(f"n{k}", [1, 2] if ndivs < 3 else [1], [0])
            eff = l
            if l is None:
                eff = ttl if ttl is not None else DEFAULT
                t.reach("default" if ttl is None else "tt-lang")
            doc += "<div" + (f' xml:lang="{l}"' if l is not None else "") + ">"
            if eff in want:
                t.reach("repeated-div")
            else:
                want[eff] = []
                order.append(eff)

            def para(eff):
                nonlocal doc, i
                s = t.int(f"s{i}", 0, 86398)
                doc += (f'<p begin="{s // 3600:02}:{s // 60 % 60:02}:{s % 60:02}.000" dur="1s">w{i}</p>')
                want[eff].append((s * 1000000, f"w{i}"))
                i += 1
            for _ in range(n):
                para(eff)
            if nest and k == 0:
                t.reach("nested-div")
                l2 = t.pick("inner", [None, "fr-FR", "es"])
                e2 = l2 if l2 is not None else eff
                doc += "<div" + (f' xml:lang="{l2}"' if l2 is not None else "") + ">"
                if e2 not in want:
                    want[e2] = []
                    order.append(e2)
                para(e2)
                doc += "</div>"
            doc += "</div>"
        doc += "</body></tt>"
        t.assume(i > 0)
        check_set(t, "DFXP read", DFXPReader().read(doc), order, want)
    return run


def scenarios(tier):
    deep = tier != "quick"
    out = []
    pairs = [(["en", "fr"], [1, 1]), (["en", "fr"], [2, 1]), (["en", "fr"], [1, 2]), (["en-US", "en"], [1, 1]),
             (["en", "en-US"], [2, 1]), (["en", "fr"], [0, 2]), (["fr", "en"], [2, 0]), (["en"], [3]),
             (["en", "e"], [1, 1]), (["de", "fr", "en"], [1, 1, 1]), (["en", "fr", "es"], [0, 1, 1]), (["en", "fr"], [2, 2])]
    more = [(["en", "fr"], [3, 1]), (["en", "fr"], [1, 3]), (["en", "en-US", "en-GB"], [1, 1, 1]),
            (["fr", "de", "en"], [1, 1, 2]), (["a", "b", "c", "d"], [1, 1, 1, 1]), (["en", "fr"], [3, 2]), (["EN", "en"], [1, 1])]
    for langs, counts in pairs + (more if deep else []):
        nm = "+".join(langs) + "-" + "".join(map(str, counts))
        if langs != ["EN", "en"]:
            out.append((f"sami-write-{nm}-{tier}", sami_write(langs, counts, EDGE)))
            if sum(counts) <= 2:
                out.append((f"sami-write-full-{nm}-{tier}", sami_write(langs, counts, FULL)))
        if sum(counts) <= (3 if not deep else 4):
            for w in ("dfxp", "dfxp-legacy", "dfxp-single"):
                out.append((f"{w}-write-{nm}-{tier}", dfxp_write(w, langs, counts)))
        out.append((f"plain-write-{nm}-{tier}", plain_write(langs, counts)))
    for langs, counts in [(["en", "fr"], [1, 1]), (["en-US", "en"], [1, 1])] + ([(["en", "fr"], [2, 1])] if deep else []):
        out.append((f"sami-write-classes-{'+'.join(langs)}-{''.join(map(str, counts))}-{tier}", sami_write(langs, counts, EDGE, True)))
    for n in ("srt", "webvtt", "microdvd"):
        out.append((f"{n}-read-lang-{tier}", read_lang(n)))
    for blocks in ([1, 1], [2], [2, 1], [1, 2]) + (([2, 2], [1, 1, 1], [3]) if deep else ()):
        kinds = ["0", "1", "en", "-"] if sum(blocks) > 2 else ["0", "1", "K", "u", "fr", "en", "de-CH", "-"]
        if deep and sum(blocks) == 3:
            kinds = ["0", "1", "K", "fr", "en", "-"]
        out.append((f"sami-read-{''.join(map(str, blocks))}-{tier}", sami_read(kinds, blocks)))
    for nd in (1, 2) + ((3,) if deep else ()):
        for nest in (False, True):
            out.append((f"dfxp-read-{nd}{'-nested' if nest else ''}-{tier}", dfxp_read(nd, nest)))
    return out
