"""Concrete conversions run once before the exploration forks, so that lazily built tables (regular
expressions, parsers, imports) are shared by every path.  The classes are re-created per path by the
harnesses; this only fills caches."""


def libs():
    """fill the caches of the libraries only: pycaption stays as a fresh process has it"""
    try:
        from bs4 import BeautifulSoup
        import cssutils
        import textwrap
        BeautifulSoup("<p a='b'>x<br/>&amp;</p>", "lxml").find("p").get_text()
        b = BeautifulSoup("<tt xmlns='u'><p/></tt>", "lxml-xml")
        b.find("p").append(b.new_tag("q", a="1"))
        b.prettify(formatter=None)
        cssutils.parseString("p { color: #ffffff; margin-left: 8%; }")
        textwrap.fill("a b", 1)
    except Exception:
        pass


def run(pycaption=True):
    if not pycaption:
        return libs()
    try:
        import pycaption as p
        srt = "1\n00:00:01,000 --> 00:00:02,500\na <b> & c\nd\n\n2\n00:00:03,000 --> 00:00:04,000\ne\n"
        sami = ('<SAMI><HEAD><STYLE TYPE="text/css"><!--\n P { margin-left: 8%; color: #ffffff; }\n'
                ' .E { name: "E"; lang: en-US; }\n--></STYLE></HEAD><BODY><SYNC Start=1000><P Class=E>'
                '<span style="text-align:right;font-style:italic;">a &amp; &eacute;</span><br>&#65; <i>b</i></SYNC>'
                '<SYNC Start="2000"><P Class=E>&nbsp;</P></SYNC></BODY></SAMI>')
        dfxp = ('<tt xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="en">'
                '<head><styling><style xml:id="s" tts:color="red"/></styling><layout><region xml:id="r" '
                'tts:origin="10% 20%" tts:extent="50px 40%" tts:padding="1% 2%" tts:textAlign="left" '
                'tts:displayAlign="before"/></layout></head><body><div><p begin="1s" end="00:00:02.5" region="r" '
                'style="s">a<br/><span tts:fontStyle="italic">b</span> &amp;</p></div></body></tt>')
        vtt = "WEBVTT\n\n00:01.000 --> 00:00:02.000 align:left\n<v A>a</v> <i>b</i> &amp;\n\n"
        mdv = "{0}{0}25\n{10}{20}a|b\n"
        scc = ("Scenarist_SCC V1.0\n\n00:00:01:00\t94ae 94ae 9420 9420 9470 9470 6162 942c 942c 942f 942f\n\n"
               "00:00:03:00\t942c 942c\n")
        p.detect_format(srt)
        p.detect_format(sami)
        sets = [p.SRTReader().read(srt), p.SAMIReader().read(sami), p.DFXPReader().read(dfxp),
                p.WebVTTReader().read(vtt), p.MicroDVDReader().read(mdv), p.SCCReader().read(scc)]
        from pycaption.dfxp.extras import LegacyDFXPWriter, SinglePositioningDFXPWriter
        from pycaption.geometry import Layout
        ws = [p.SRTWriter(), p.WebVTTWriter(video_width=640, video_height=480),
              p.DFXPWriter(video_width=640, video_height=480), p.SAMIWriter(video_width=640, video_height=480),
              p.MicroDVDWriter(), p.SCCWriter(), LegacyDFXPWriter(video_width=640, video_height=480),
              SinglePositioningDFXPWriter(Layout(), video_width=640, video_height=480)]
        for s in sets:
            for w in ws:
                try:
                    w.write(s)
                except Exception:
                    pass
    except Exception:
        pass
