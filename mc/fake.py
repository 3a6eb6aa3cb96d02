"""A readline that is fed by a script instead of a terminal."""
import nessaid_cli.cli as _c
try:
    from nessaid_readline.async_readline import NessaidReadlineEOF, NessaidReadlineKeyboadInterrupt
    import nessaid_readline.async_readline as _r
except Exception:                                            # pragma: no cover
    _r = None
    NessaidReadlineEOF = NessaidReadlineKeyboadInterrupt = EOFError

EOF, INTR = ('EOF',), ('INTR',)


class EndOfScript(BaseException):
    """The terminal was asked for more input than the script holds."""


class Fake:
    """Stands in for NessaidAsyncReadline: same calls, input from self.script."""

    def __init__(self, *a, **k):
        self.script = []
        self.buffer = ''
        self.log = []            # ('prompt', text, hidden) of every read, in order
        self.completer = None
        self._enable_bell = False
        self._input_prompt = ''
        self.bells = 0
        self.ended = False       # asked for more than the script holds

    def set_completer(self, f):
        self.completer = f

    def get_completer(self):
        return self.completer

    def enable_bell(self, e=True):
        self._enable_bell = e

    def play_bell(self):
        self.bells += 1

    def get_line_buffer(self):
        return self.buffer

    async def insert_text(self, t):
        for ch in t:
            if ch == '\x7f' or ch == '\x08':
                self.buffer = self.buffer[:-1]
            else:
                self.buffer += ch

    async def take(self, prompt, hidden):
        self._input_prompt = prompt
        if not self.ended:
            self.log.append(('prompt', prompt, hidden))
        if not self.script:
            self.ended = True
            raise EndOfScript()
        x = self.script.pop(0)
        if x == EOF:
            raise NessaidReadlineEOF()
        if x == INTR:
            raise NessaidReadlineKeyboadInterrupt()
        return x

    async def readline(self, prompt='', **k):
        return await self.take(prompt, False)

    async def input(self, prompt='', mask_input=False, **k):
        return await self.take(prompt, bool(mask_input))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


def install(cls=Fake):
    _c.NessaidAsyncReadline = cls
    if _r is not None:
        _r.NessaidAsyncReadline = cls
