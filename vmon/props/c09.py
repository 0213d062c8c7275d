import re

from attr import evolve
from immutablecollections import immutabledict

from vistautils.annotated_text_utils import (
    AnnotatedSpan, HTMLStyleAnnotationFormatter, to_end_tag, to_start_tag,
)
from vistautils.span import Span

from vmon import gen
from vmon.engine import Property

PROP = Property(
    "C09",
    scale=25,
    rule="Texts (markup characters, astral and combining characters, any line breaks) with up to 12 "
    "annotations: laminar families with identical, adjacent and nested spans in any order, or "
    "arbitrary crossing ones; rendered alone or as part of a document with annotations before, "
    "behind, across the borders and around. The output is tokenised by the exact tags expected; the "
    "rest has to be the text, and every tag has to lie at its offset.",
    required=["many", "rendered", "nested", "identical_spans", "adjacent", "clipped", "outside", "crossing", "odd_label",
              "attributes", "empty_text", "rejected", "document", "shifted_document"],
    assumptions=["the text itself contains none of the labels used"],
    files=["vistautils/annotated_text_utils.py", "vistautils/span.py"],
)


def expected_start(annotation):
    attributes = dict(annotation.attributes)
    inner = "".join(f' {k}="{attributes[k]}"' for k in sorted(attributes))
    return f"<{annotation.label}{inner}>"


def tokenise(rendered, tags):
    """[(offset in the remaining text, tag)], remaining text"""
    if not tags:
        return [], rendered
    pattern = "|".join(re.escape(t) for t in sorted(tags, key=len, reverse=True))
    found, rest, last, offset = [], [], 0, 0
    for match in re.finditer(pattern, rendered):
        rest.append(rendered[last:match.start()])
        offset += match.start() - last
        found.append((offset, match.group()))
        last = match.end()
    rest.append(rendered[last:])
    return found, "".join(rest)


def check_rendering(c, text, annotations, offset, rendered, laminar):
    starts, ends, tags = [], [], set()
    for a in annotations:
        tags |= {expected_start(a), f"</{a.label}>"}
        s = max(a.span.start - offset, 0)
        e = min(a.span.end - offset, len(text))
        if s < e:
            starts.append((s, expected_start(a)))
            ends.append((e, f"</{a.label}>"))
            if (s, e) != (a.span.start - offset, a.span.end - offset):
                c.count("clipped")
        else:
            c.count("outside")
    found, rest = tokenise(rendered, tags)
    c.count("rendered")
    c.eq(rest, text, "text without the tags", rendered)
    c.eq(sorted(t for t in found if not t[1].startswith("</")), sorted(starts), "start tags",
         rendered, annotations, offset)
    c.eq(sorted(t for t in found if t[1].startswith("</")), sorted(ends), "end tags",
         rendered, annotations, offset)
    if laminar:
        stack = []
        for at, tag in found:
            if tag.startswith("</"):
                c.check(bool(stack), "end tag without start tag", rendered, annotations)
                opened_at, opened = stack.pop()
                c.eq(tag, f"</{re.split(' |>', opened[1:])[0]}>", "crossing tags", rendered)
                c.check(opened_at < at, "an element which wraps nothing", rendered, annotations)
            else:
                stack.append((at, tag))
        c.check(not stack, "start tag without end tag", rendered)
        # and each element has exactly the span of an annotation
        stack, elements = [], []
        for at, tag in found:
            if tag.startswith("</"):
                elements.append((*stack.pop(), at))
            else:
                stack.append((at, tag))
        wanted = [(s, t, e) for (s, t), (e, _) in zip(starts, ends)]
        c.eq(sorted(elements), sorted(wanted), "elements", rendered, annotations)


def laminar_spans(c, lo, hi, budget):
    """A random family of spans within [lo, hi) of which no two cross."""
    ret = []
    while budget > 0 and lo < hi:
        s = c.rng.randint(lo, hi - 1) if c.rng.random() < 0.7 else lo
        e = c.rng.randint(s + 1, hi) if c.rng.random() < 0.7 else hi
        copies = c.rng.choice([1, 1, 1, 2, 3])
        ret += [(s, e)] * copies
        budget -= copies
        if copies > 1:
            c.count("identical_spans")
        if c.rng.random() < 0.7:
            inner = laminar_spans(c, s, e, min(budget, 4))
            if inner:
                c.count("nested")
            ret += inner
            budget -= len(inner)
        if c.rng.random() < 0.3:
            break
        if s == lo and ret:
            c.count("adjacent")
        lo = e
    return ret


def annotate(c, ends, j, distinct):
    label = f"Q{j}" if distinct else c.rng.choice(["Q", "Qa", "QB", "Q-1"])
    if c.rng.random() < 0.2:
        c.count("odd_label")
        label = c.rng.choice(["Q\u00e9", "QA\u030a", "Q\u00c5", "q.x", "Q:x", "QQ", "Q_q", "Q\U0001f600", "Q" * 150, "Q1.5~"]) + (
            str(j) if distinct else "")
    span = Span(*ends)
    way = c.rng.randint(0, 3)
    if way == 0 and not distinct:
        # div and span do not occur in the text either, as it has no lower case letter d or s
        make = c.rng.choice([AnnotatedSpan.create_div_of_class, AnnotatedSpan.create_span_of_class])
        ret = make(span, c.rng.choice(["x", "y z", "X", "z  y y", "B-1.x_y", "e\u0301", "\u00e9", "~", "", " x ", "\u4e2d" * 60, "it's"]))
        c.eq(ret.label, "div" if make is AnnotatedSpan.create_div_of_class else "span", "label")
        c.eq(dict(ret.attributes), {"class": dict(ret.attributes)["class"]}, "attributes")
    elif way == 1:
        ret = AnnotatedSpan(label, span)
    else:
        names = c.rng.sample(["a", "b", "B", "id", "z", "_", "\u00e9", "e\u0301", "a1", "aa", "a-b", "data-x.y", "xml:id", "a" * 120, "9"],
                             c.rng.choice([0, 1, 2, 4, 12]))
        pairs = [(n, c.rng.choice(["", "v", "1 2", "\u4e2d", "x&y", "%s", "'", "V", "1.50", "e\u0301", "\u212b",
                                            "\U0001f600", " v ", "two  blanks", "a\nb", "a\tb\r", "v" * 300, "~/x", "{0}", "&amp;", "None"])) for n in names]
        ret = AnnotatedSpan(label, span, c.rng.choice([pairs, immutabledict(pairs)]))
        if len(pairs) > 1:
            c.count("attributes")
    c.eq(to_start_tag(ret), expected_start(ret), "start tag", ret)
    c.eq(to_end_tag(ret), f"</{ret.label}>", "end tag", ret)
    return ret


def some_text(c, n):
    alphabet = c.rng.choice(["abc", "ab <>&\"'/", "\U0001f600e\u0301\u200d\u4e2d", "\n\r\t \u2028\x00x",
                             "<b>&lt;</b>%{}", "ABCabc0129.,;-_~$#", " \n", "\r\n", "e\u0301\u212b\ufb01\u0130\u00df"])
    return "".join(c.rng.choice(alphabet) for _ in range(n))


@PROP.scenario(quick=2500)
def renderings(c):
    formatter = HTMLStyleAnnotationFormatter()
    document = some_text(c, c.rng.choice([0, 1, 2, 5, 9, 30, 300]))
    laminar = c.rng.random() < 0.75
    n = len(document)
    if laminar:
        # the annotations may reach beyond the whole document as well
        spans = laminar_spans(c, -2, n + 3, c.rng.choice([0, 1, 2, 5, 12]))
    else:
        c.count("crossing")
        spans = []
        for _ in range(c.rng.randint(1, 8)):
            s = c.rng.randint(-2, n + 2)
            spans.append((s, s + c.rng.randint(1, n + 2)))
    distinct = c.rng.random() < 0.6
    annotations = [annotate(c, ends, j, distinct) for j, ends in enumerate(spans)]
    annotations = gen.shuffled(c.rng, annotations)
    c.log("document", document, annotations)
    before = list(annotations)
    if not document:
        c.count("empty_text")
    rendered = formatter.annotated_text(document, annotations)
    check_rendering(c, document, annotations, 0, rendered, laminar)
    c.eq(formatter.annotated_text(document, tuple(annotations)), rendered, "rendering again")
    for _ in range(3):
        if not n:
            break
        s = c.rng.randint(0, n - 1)
        e = c.rng.randint(s + 1, n)
        c.count("document")
        part = formatter.annotated_text(document[s:e], annotations, text_offsets=Span(s, e))
        c.log("part", s, e, part)
        check_rendering(c, document[s:e], annotations, s, part, laminar)
        base = c.rng.choice([-1, 1]) * c.rng.choice([1, 3, n, n + 5, 1000, 10 ** 12])
        c.count("shifted_document")
        moved = [evolve(a, span=a.span.shift(base)) for a in annotations]
        c.eq(formatter.annotated_text(document[s:e], moved, text_offsets=Span(s + base, e + base)),
             part, "a part of a document whose offsets begin elsewhere", s, e, base)
        wrong = c.rng.choice([(s, e + 1), (s, e + 7), (s + 1, e + 2), (0, n + 1)])
        if wrong[1] - wrong[0] != e - s:
            c.count("rejected")
            c.raises(
                ValueError,
                lambda: formatter.annotated_text(
                    document[s:e], annotations, text_offsets=Span(*wrong)
                ),
                "offsets of another length", document[s:e], wrong,
            )
    c.count("rejected")
    c.raises(ValueError, lambda: formatter.annotated_text("", annotations, text_offsets=Span(0, 1)),
             "offsets for empty text")
    c.check(all(x is y for x, y in zip(before, annotations)), "annotations afterwards")


@PROP.scenario(quick=60, thorough=1500)
def many_annotations(c):
    """Long documents with hundreds of annotations, deep nests and crowds at one place."""
    formatter = HTMLStyleAnnotationFormatter()
    document = some_text(c, c.rng.choice([50, 300, 5000, 70000]))
    n = len(document)
    shape = c.rng.choice(["deep", "crowd", "row", "family"])
    if shape == "deep":
        depth = min(c.rng.choice([20, 60, 150]), n // 2 - 1)
        spans = [(j, n - (j if c.rng.random() < 0.7 else 0)) for j in range(depth)]
        spans = [(s, min(e for _, e in spans[:j + 1])) for j, (s, _) in enumerate(spans)]
    elif shape == "crowd":
        s = c.rng.randint(0, n - 2)
        e = c.rng.randint(s + 1, n)
        spans = [(s, e)] * c.rng.choice([5, 17, 40]) + [(0, n)] * c.rng.randint(0, 20) + [(s, s + 1)] * c.rng.randint(0, 20)
    elif shape == "row":
        step = c.rng.choice([1, 2, 3])
        spans = [(s, min(s + step, n)) for s in range(0, min(n, 1000), step)]
    else:
        spans = []
        for s in range(0, n, max(n // 12, 5)):
            spans += laminar_spans(c, s, min(s + max(n // 12, 5), n), 20)
    c.count("many")
    distinct = c.rng.random() < 0.5
    annotations = gen.shuffled(c.rng, [annotate(c, ends, j, distinct) for j, ends in enumerate(spans)])
    c.log("document", n, shape, len(annotations))
    check_rendering(c, document, annotations, 0, formatter.annotated_text(document, annotations), True)
    s = c.rng.randint(0, n - 1)
    e = c.rng.randint(s + 1, n)
    part = formatter.annotated_text(document[s:e], annotations, text_offsets=Span(s, e))
    check_rendering(c, document[s:e], annotations, s, part, True)
