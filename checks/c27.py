"""C27: the caller's data are left alone, and later changes to them do no harm."""
import c26
import workflow
from c26 import JUDGE, nontrivial, observe  # noqa: F401

TITLE = 'data of the caller'
RULE = ('inputs are behaviours of Workflow (with tampering) generated by TLC, played with the same input objects handed over '
        'again and again; every object handed over is compared with its state before the call after every step, and the '
        'caller spoils inputs and returned results in place at any point; non-trivial when losses were calculated')
MC = []
ASSUMPTIONS = c26.ASSUMPTIONS


def prepare(ctx):
    c26.prepare(ctx, 'WorkflowSimT.cfg', MC)


def cases(ctx):
    return []


def from_model(ctx, runs):
    return c26.from_model(ctx, runs, reuse=1)
