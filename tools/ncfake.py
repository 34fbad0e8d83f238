"""A ModelDevice without a network, for the demonstrations.

device(folder, {name: yang text}) gives a ModelDevice whose schemas come from
a scratch folder; session(...) style behaviour is scripted by the caller.
"""
import os
import sys
import types

sys.dont_write_bytecode = True
import logging
logging.disable(logging.CRITICAL)

from ncclient.devices.default import DefaultDeviceHandler
from ncdiff.manager import ModelDevice

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
CAPS = [NC, 'urn:ietf:params:netconf:base:1.0',
        'urn:ietf:params:netconf:capability:candidate:1.0']


class Session:
    def __init__(self, caps):
        self.server_capabilities = self._server_capabilities = caps
        self.client_capabilities = self._client_capabilities = caps
        self.connected = True
        self.id = '1'

    def add_listener(self, x):
        pass

    def get_listener_instance(self, cls):
        return None


def device(folder, texts, caps=(), load=True):
    caps = set(list(CAPS) + list(caps) + [
        'urn:%s?module=%s&revision=2024-01-01' % (n, n) for n in texts])
    os.makedirs(folder, exist_ok=True)
    for n, t in texts.items():
        with open(os.path.join(folder, n + '.yang'), 'w') as f:
            f.write(t)
    with open(os.path.join(folder, 'capabilities.txt'), 'w') as f:
        f.write('\n'.join(sorted(caps)))
    m = ModelDevice(Session(caps), DefaultDeviceHandler())
    m.scan_models(folder=folder)
    if load:
        for n in texts:
            m.load_model(n)
    return m


def config(body, ns=NC):
    return '<nc:config xmlns:nc="%s">%s</nc:config>' % (NC, body)


def module(name, body):
    return ('module %s {\n  namespace "urn:%s";\n  prefix %s;\n'
            '  revision 2024-01-01;\n%s\n}\n' % (name, name, name, body))


class Serving:
    """Patches the transport: requests are answered from self.texts.

    A text that is an exception instance is raised instead."""

    def __init__(self, texts, caps=None):
        from ncclient import manager, operations
        self.texts = texts
        self.listed = list(texts) if caps is None else caps
        self.asked = []

        def execute(manager_self, cls, *args, **kwargs):
            assert cls is operations.retrieve.GetSchema, cls
            name = args[0]
            self.asked.append(name)
            text = self.texts.get(name)
            if isinstance(text, BaseException):
                raise text
            return types.SimpleNamespace(
                ok=text is not None, data=text, _raw='no such schema')
        manager.Manager.execute = execute

    def connect(self, extra=()):
        caps = set(CAPS + list(extra) + [
            'urn:%s?module=%s&revision=2024-01-01' % (n, n)
            for n in self.listed])
        return ModelDevice(Session(caps), DefaultDeviceHandler())
