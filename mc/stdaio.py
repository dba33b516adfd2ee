"""
The asyncio of the standard library as a reference model: loaded under an other name (scarletio replaces the original), from its pure
python parts, on a loop which has only virtual time and no input / output, stepped by the harness.
"""
import importlib.util, os, sys, sysconfig

NAME = '_standard_asyncio'
_loop_type = None


def load():
    """Call it before `scarletio.ext.asyncio` is imported."""
    try:
        return sys.modules[NAME]
    except KeyError:
        pass
    folder = os.path.join(sysconfig.get_paths()['stdlib'], 'asyncio')
    spec = importlib.util.spec_from_file_location(NAME, os.path.join(folder, '__init__.py'), submodule_search_locations = [folder])
    module = importlib.util.module_from_spec(spec)
    sys.modules[NAME] = module
    accelerated = sys.modules.get('_asyncio')
    sys.modules['_asyncio'] = None # only the pure python parts
    try:
        spec.loader.exec_module(module)
    except BaseException:
        del sys.modules[NAME]
        raise
    finally:
        if accelerated is None:
            del sys.modules['_asyncio']
        else:
            sys.modules['_asyncio'] = accelerated
    return module


class _NoSelector:
    def select(self, timeout = None):
        return []

    def close(self):
        pass


def new_loop():
    global _loop_type
    module = load()
    if _loop_type is None:
        class ModelLoop(module.base_events.BaseEventLoop):
            def __init__(self):
                super().__init__()
                self._selector = _NoSelector()
                self.now = 1000.0
                self.errors = []
                self.set_exception_handler(lambda loop, context: self.errors.append(context))

            def time(self):
                return self.now

            def _process_events(self, events):
                pass

            def _write_to_self(self):
                pass

            def __del__(self):
                pass

        _loop_type = ModelLoop
    return _loop_type()


class Inside:
    """The model loop counts as running in the block."""
    def __init__(self, loop):
        self.loop = loop

    def __enter__(self):
        load().events._set_running_loop(self.loop)

    def __exit__(self, *rest):
        load().events._set_running_loop(None)


def settle(loop):
    with Inside(loop):
        while loop._ready:
            loop._run_once()


def due(loop):
    """When the next timer fires; `None` if there is none."""
    return min((handle._when for handle in loop._scheduled if not handle._cancelled), default = None)


def advance(loop, seconds):
    settle(loop)
    target = loop.now + seconds
    while True:
        when = due(loop)
        if when is None or when > target + 1e-6:
            break
        loop.now = max(loop.now, when)
        with Inside(loop):
            loop._run_once()
        settle(loop)
    loop.now = target
