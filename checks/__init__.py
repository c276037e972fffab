# property id -> module in this package
REGISTRY = {}


def _register():
    import json
    import pathlib

    table = json.loads((pathlib.Path(__file__).parent / "registry.json").read_text())
    REGISTRY.update(table)


_register()
