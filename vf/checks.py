import importlib
REGISTRY = {}
for m in ("c_lyndon", "c_suffix", "c_parse", "c_count", "c_codec", "c_words", "c_enum", "c_cli", "c_pipe", "c_files", "c_calls", "c_args"):
    REGISTRY.update(importlib.import_module("vf." + m).REGISTRY)
