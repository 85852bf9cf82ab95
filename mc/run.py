"""usage: python -m mc.run PROPERTY quick|thorough   |   python -m mc.run --replay FILE"""
import importlib
import json
import sys
import warnings

from mc import core

warnings.simplefilter('ignore')


def load(prop):
    return importlib.import_module(f'mc.props.{prop.lower()}')


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as fp:
            prop = json.load(fp)['property']
        sys.exit(core.replay(sys.argv[2], load(prop)))
    prop, tier = sys.argv[1], sys.argv[2]
    try:
        module = load(prop)
    except ImportError as err:
        import traceback
        text = traceback.format_exc()
        class module:
            @staticmethod
            def spaces(tier):
                raise ImportError(text)
    sys.exit(core.main(prop, tier, module))
