"""YAML texts whose meaning is known."""
import datetime
import json

import yaml

from vmon import paramgen


def strictly_string_keys(model):
    return {k: v for k, v in model.items()}


def leaf(rng, lists=True):
    if rng.random() < 0.05:
        return datetime.date(2000, 1, 1) + datetime.timedelta(rng.randint(0, 9999))
    return paramgen.leaf(rng, lists)


def _quoted(text):
    return json.dumps(text)


def emit(rng, model, *, style=None):
    """A YAML document with the given content (in the same order), in some style."""
    style = style or rng.choice(["json", "dump", "flow", "narrow", "wide", "quoted", "hand"])
    if style == "json":
        try:
            text = json.dumps(model, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5)
        except TypeError:
            return emit(rng, model, style="dump")
        return text + "\n"
    if style == "hand" and model and all(
        isinstance(v, (int, str)) for _, v in paramgen.leaves(model)
    ):
        lines = ["# a comment", "---"] if rng.random() < 0.3 else []

        def put(m, indent):
            for k, v in m.items():
                if isinstance(v, dict):
                    if v:
                        lines.append(" " * indent + _quoted(k) + ":" + rng.choice(["", " ", " # why"]))
                        put(v, indent + step)
                    else:
                        lines.append(" " * indent + _quoted(k) + ": {}")
                else:
                    lines.append(" " * indent + _quoted(k) + ": " + json.dumps(v))
                if rng.random() < 0.2:
                    lines.append(rng.choice(["", "# comment", "   "]))

        step = rng.randint(1, 4)
        put(model, 0)
        return "\n".join(lines) + rng.choice(["", "\n", "\n\n"])
    options = {
        "dump": {"default_flow_style": False},
        "flow": {"default_flow_style": True},
        "narrow": {"width": 20, "indent": 2},
        "wide": {"width": 10 ** 6, "indent": 8, "default_flow_style": False},
        "quoted": {"default_style": '"'},
        "hand": {"explicit_start": True, "explicit_end": True},
    }[style]
    if style == "quoted" and any(
        isinstance(v, (list, datetime.date)) for _, v in paramgen.leaves(model)
    ):
        options = {}
    return yaml.safe_dump(model, sort_keys=False, allow_unicode=rng.random() < 0.5, **options)


def document(rng, model):
    """Like emit, but only such texts which YAML itself reads back as intended; or None."""
    for style in (None, None, "dump", "json"):
        text = emit(rng, model, style=style)
        try:
            if paramgen.ordered(yaml.safe_load(text)) == paramgen.ordered(model):
                # files are read and written with universal newlines
                if "\r" not in text:
                    return text
        except yaml.YAMLError:
            pass
    return None
