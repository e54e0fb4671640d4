"""Plans shared by the checks of the dsv module."""
from vf import gen_dsv as g

TABLES = ('rows', 'rows', 'numbered')


def full(d):
    """complete a dialect record emitted by TLC"""
    return dict(g.PLAIN, **d)


def clean_cr(plan_text):
    """no lone carriage returns (line numbers count line feeds inside cells)"""
    return plan_text.replace('\r\n', '\n').replace('\r', '')
