"""writes DESIGN.md from design_head.md, the harnesses' own statements of their bounds, known_findings.json and seeded/*/meta.json"""
import ast
import glob
import json
import os
H = os.path.dirname(os.path.abspath(__file__))
METHOD = {
 "C01": ("the readers run on documents whose timestamp digits are symbolic; every caption's start and end is compared with the instant computed "
         "from the same symbols by the harness (integer arithmetic over rationals)", "own arithmetic from the format definitions"),
 "C02": ("the writers run on captions with symbolic microseconds; the written timestamps (symbolic strings) are parsed by reference parsers and "
         "compared with the truncated times", "reference parsers refs/srtp, vttp, ttml, samip"),
 "C03": ("the writers run on symbolic text; their output is parsed by a reference parser and the lines compared", "strict XML parser refs/xmlp, "
         "HTML tokenizer refs/samip, WebVTT cue grammar refs/vttp, SRT block grammar refs/srtp"),
 "C04": ("the readers run on documents with symbolic text, references and markup; the text is compared with the display text the harness derives "
         "from the same pieces", "piecewise display model in the harness, html entity table"),
 "C05": ("the SCC reader runs on streams whose code words are symbolic entries of the code tables; characters, lines, italics and positions are "
         "compared with a CEA-608 decoder model run on the same symbols", "refs/cea608 (own tables, written from the standard)"),
 "C06": ("timecode fields and the offset are symbolic integers; starts and ends are compared with exact rationals", "frame arithmetic in thirds "
         "of a microsecond"),
 "C07": ("the DFXP writers run on symbolic strings in every place of a caption set and on symbolic node sequences and layouts; the output goes "
         "through a strict XML parser and a reference resolver", "refs/xmlp, refs/ttml"),
 "C08": ("each hop writes and reads with the real code on symbolic times and text; after each hop the result is compared with the truncated "
         "expectation (times are frames, milliseconds and microseconds as separate symbols, so truncation is linear), and proven-equal times are "
         "rewritten to their short form before the next hop; the chain runs twice", "truncation per format"),
 "C09": ("a deep snapshot is compared before and after each write; outputs of histories are compared character by character as symbolic strings; "
         "iteration of hash sets is a symbolic permutation", "equality of runs (self-composition)"),
 "C10": ("as C09 for readers: the second and third read are compared with the first", "equality of runs (self-composition)"),
 "C11": ("symbolic node sequences through writer and reader; the set of marked characters is compared and the tags of the output are checked for "
         "nesting", "character-marks model of the node list; tag parsers in refs"),
 "C12": ("symbolic coordinates through the DFXP writer and reader and the WebVTT writer", "effective-layout model; cue setting arithmetic"),
 "C13": ("symbolic lengths, units and video sizes through the writers; written numbers are compared with the exact rational percentage",
         "rational arithmetic"),
 "C14": ("symbolic cue times in several languages, symbolic pick of names and orders", "per-language cue lists"),
 "C15": ("symbolic characters and timecodes in rows of chosen lengths", "the decoded rows' lengths"),
 "C16": ("symbolic items and timecodes in roll-up and paint-on streams", "the transmitted rows in order"),
 "C17": ("symbolic text and instants through the SCC writer; output parsed by refs/cea608 and by the real reader", "refs/cea608, word lists"),
 "C18": ("symbolic numbers and strings through the geometry classes; parsing of strings of arbitrary characters against a regular grammar",
         "grammar and rational arithmetic"),
 "C19": ("symbolic times, skew and offset", "the defining equations"),
 "C20": ("strings of symbolic characters through every detect and detect_format; output of every writer detected and read",
         "the documented order applied to the readers' own detect"),
}


def consts(p):
    t = ast.parse(open(p).read())
    d = {"doc": ast.get_docstring(t)}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


def main():
    out = [open(H + "/design_head.md").read().rstrip(), "", "## The properties", ""]
    kf = json.load(open(H + "/known_findings.json"))["findings"]
    seeds = {}
    for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
        x = json.load(open(m))
        seeds.setdefault(x["property"], []).append((os.path.basename(os.path.dirname(m)), x))
    for pid, (how, oracle) in METHOD.items():
        d = consts(f"{H}/harness/{pid.lower()}.py")
        out += [f"### {d['doc'].splitlines()[0]}", "", f"*Decided by*: {how}. *Oracle*: {oracle}.", "", f"*Bounds*: {d.get('BOUNDS')}.", "",
                f"*Outside*: {d.get('OUTSIDE')}."]
        if d.get("ASSUMPTIONS"):
            out += ["", "*Assumptions*: " + "; ".join(d["ASSUMPTIONS"]) + "."]
        mine = [f for f in kf if f["property"] == pid]
        if mine:
            out += ["", "*Defects found*:", ""]
            out += [f"* {'known finding ' + f['id'] + ': ' + f['what'] if f['status'] == 'open' else f['what']}" for f in mine]
        if seeds.get(pid):
            out += ["", f"*Planted bugs* (each caught by the quick check of {pid} unless said otherwise):", ""]
            out += [f"* `{n}`: {x['what_it_breaks']} (needs {x['needs']})" + (f" - **{x['note']}**" if x.get("note") else "") for n, x in seeds[pid]]
        out.append("")
    open(H + "/DESIGN.md", "w").write("\n".join(out))


main()
