"""Running a command of the command line tool on a device the contract decides."""
from __future__ import annotations

import inspect
import io
import sys

import asyncclick as click
import asyncclick.decorators as decorators

from pyvc.registry import interpreted


class Ctx:
    """click's context of a running command."""

    def __init__(self, obj=None, params=None, info_name="command", sub=None, parent=None):
        self.obj, self.params, self.info_name, self.invoked_subcommand, self.parent = obj, {"json": True, **(params or {})}, info_name, sub, parent
        self.exits, self.command = [], None

    def find_root(self):
        return self.parent.find_root() if self.parent else self

    def find_object(self, kind):
        return self.obj

    def defaults(self, cmd, kw):
        return {**{p.name: p.default for p in cmd.params if p.expose_value}, **kw}

    @interpreted
    async def invoke(self, f, *a, **kw):
        if isinstance(f, click.Command):
            kw = self.defaults(f, kw)
            f = f.callback
        r = f(*a, **kw)
        if inspect.isawaitable(r):
            r = await r
        return r

    @interpreted
    async def forward(self, cmd, *a, **kw):
        return await self.invoke(cmd, *a, **{**self.params, **kw})

    def with_resource(self, cm):
        v = cm.__enter__()
        self.exits.append(cm)
        return v

    async def with_async_resource(self, cm):
        v = await cm.__aenter__()
        self.exits.append(cm)
        return v

    def leave(self, exc=None):
        """The command has ended."""
        for cm in reversed(self.exits):
            try:
                cm.__exit__(type(exc) if exc else None, exc, None)
            except BaseException as e:
                if e is not exc:
                    raise
        del self.exits[:]


def at(c, ctx):
    c.patch(decorators, "get_current_context", lambda silent=False: ctx)
    c.patch(click, "get_current_context", lambda silent=False: ctx)


def run(c, cmd, ctx, **kw):
    """The outcome of the command with these arguments, and what it printed."""
    at(c, ctx)
    out = io.StringIO()
    c.patch(sys, "stdout", out)
    o = c.call(cmd.callback, **ctx.defaults(cmd, kw))
    c.patch(sys, "stdout", sys.__stdout__)
    return o, out.getvalue()


def failed(o):
    """Ended with a message and exit code 1, or refused as misuse."""
    return o.raised(click.UsageError) or (o.exactly(SystemExit) and o.exc.code == 1)


class Told:
    """How a callback ended."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc, self.ok = value, exc, exc is None


async def tell(c, callback, x):
    """Call it as the discovery does."""
    if c.symbolic:
        return c.call(callback, x)
    try:
        r = callback(x)
        return Told(await r if inspect.isawaitable(r) else r)
    except Exception as e:
        return Told(exc=e)


class Dev:
    """A device (or child) that notes what is done to it."""

    def __init__(self, name, log, children=(), **modules):
        self.name, self.log, self.alias, self.host, self.device_id = name, log, f"Name {name}", "h", f"id-{name}"
        self.children, self.modules, self.features = list(children), dict(modules), {}
        self.is_on, self.sys_info, self.internal_state = False, {"sys": name}, {"state": name}
        self.model, self.updates = "M", 0

    def get_child_device(self, name):
        for ch in self.children:
            if name in (ch.alias, ch.device_id):
                return ch
        return None

    async def update(self, **kw):
        self.updates += 1
        self.log.append(("update", self.name, kw) if kw else ("update", self.name))

    async def disconnect(self):
        self.log.append(("disconnect", self.name))

    def __getattr__(self, what):
        if what.startswith("__") or what not in COMMANDS:
            raise AttributeError(what)

        async def do(*a, **kw):
            self.log.append((what, self.name, a, kw))
            return {"done": what}

        return do


COMMANDS = ("turn_on", "turn_off", "set_alias", "reboot", "factory_reset", "update_credentials", "wifi_scan", "wifi_join", "_query_helper")


class Mod:
    """A module with these attributes; its methods are noted."""

    def __init__(self, log, *methods, answers=None, **attrs):
        self.log, self.methods, self.answers = log, methods, answers or {}
        self.__dict__.update(attrs)

    def __getattr__(self, what):
        if what.startswith("__") or what not in self.__dict__.get("methods", ()):
            raise AttributeError(what)

        async def do(*a, **kw):
            self.log.append((what, a, kw))
            return self.answers.get(what, {"done": what})

        return do
