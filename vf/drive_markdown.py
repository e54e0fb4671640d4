"""Describe table groups as markdown (TraceMarkdown.tla).

plan: {mds, fks, names, dat ('table', 'group' or ''), there, gprops, tprops, ev}."""
import io
import os
import re
import json
import shutil
import pathlib
import argparse
import tempfile
import warnings
import contextlib

from .core import T, U
from .drive_cell import tree
from .drive_frictionless import untree
from .drive_table import group_json


class Layout(Exception):
    pass


def must(m):
    if not m:
        raise Layout()
    return m


def named(s):
    """`[name](url)`, or just a name"""
    m = re.fullmatch(r'\[(.*)\]\((.*)\)', s, flags=re.S)
    return (T(m.group(1)), [T(m.group(2))]) if m else (T(s), [])


def props(lines):
    desc, img, rows = [], [], []
    lines = list(lines)
    for i, line in enumerate(lines):
        if line.startswith('property | value'):
            for row in lines[i + 2:]:
                if not row:
                    break
                name, text = must(row.partition(' | '))[::2]
                name, link = named(name)
                rows.append({'name': name, 'link': link, 'text': T(text)})
            break
        m = re.fullmatch(r'!\[(.*?)\]\((.*)\)', line)
        if m:
            img.append({'cap': T(m.group(1)), 'url': T(m.group(2))})
        else:
            desc.append(line)
    return {'desc': T('\n'.join(desc).strip('\n')), 'img': img, 'rows': rows}


def parse(text):
    """The parts of the markdown."""
    head, *tabs = re.split(r'(?m)^## <a name="', text)
    lines = head.split('\n')
    title = must(re.fullmatch('# (.*)', lines.pop(0))).group(1)
    note = []
    if len(lines) > 2 and lines[1] == '> [!NOTE]':
        m = must(re.fullmatch(r'> Described by \[(.*)\]\((.*)\)\.', lines[2]))
        note = [T(m.group(1)) if m.group(1) == m.group(2) else T(lines[2])]
        lines = lines[3:]
    res = {'title': T(title), 'note': note, 'props': props(lines), 'tabs': []}
    dias = []
    for tab in tabs:
        lines = tab.split('\n')
        anchor, url = must(re.fullmatch(r'(.*)"></a>Table (.*)', lines.pop(0))).groups()
        m = re.fullmatch(r'\[(.*)\]\((.*)\)', url)
        if m and m.group(1) != m.group(2):
            raise Layout()
        at = lines.index('### Columns')
        dia = [i for i, line in enumerate(lines[:at]) if line.startswith('**CSV dialect**: `')]
        dias.append([[k, tree(v)] for k, v in json.loads(lines[dia[0]][len('**CSV dialect**: `'):-1]).items()] if dia else [])
        if [x.strip() for x in lines[at + 2:at + 4]] != ['Name/Property | Datatype | Description', '--- | --- | ---']:
            raise Layout()
        cols = []
        for line in '\n'.join(lines[at + 4:]).rstrip('\n').split('\n'):
            if not line:
                continue
            name, dt, desc = line.split(' | ', 2)
            m = re.fullmatch('`(.*)`', name)
            name, link = (T(m.group(1)), []) if m else named(name)
            cols.append({'name': name, 'link': link, 'dt': T(dt), 'desc': T(desc)})
        res['tabs'].append({'anchor': T(anchor), 'url': T(m.group(1) if (m := re.fullmatch(r'\[(.*)\]\((.*)\)', url)) else url),
                            'linked': bool(m), 'props': props(lines[:min(dia + [at])]), 'cols': cols})
    return res, dias


def fmtx(dt):
    """The text of the format of a datatype, if it is one."""
    from .drive_cell import dt_json
    x = dt_json(dt)
    f = x.get('format') if isinstance(x, dict) else None
    return [T(f)] if isinstance(f, str) else []


def description(plan):
    res = group_json(plan['mds'], plan['fks'], plan['names'], plan['dat'])
    res.update({U(k): untree(v) for k, v in plan['gprops']})
    for tab, md, ps in zip(res['tables'], plan['mds'], plan['tprops']):
        tab.update({U(k): untree(v) for k, v in ps})
        for c, col in zip(md['cols'], tab['tableSchema']['columns']):
            if c['descr']:
                col['dc:description'] = untree(c['descr'][0])
    for t, c, ref in plan.get('schemarefs', []):
        res['tables'][t - 1]['tableSchema'].setdefault('foreignKeys', []).append(
            {'columnReference': U(c), 'reference': {'schemaReference': ref, 'columnReference': 'x'}})
    return res


def execute(plan):
    from csvw import TableGroup
    from csvw.__main__ import csvw2markdown
    from csvw.utils import metadata2markdown
    d = pathlib.Path(tempfile.mkdtemp(dir=os.getcwd()))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            md = d / plan['mdname']
            desc = description(plan)
            md.write_text(json.dumps(desc), encoding='utf8')
            for n, there in zip(plan['names'], plan['there']):
                (d / n).parent.mkdir(exist_ok=True, parents=True)
                if there:
                    (d / n).write_text('')
            ev = []
            for e in plan['ev']:
                if e['how'] == 'memory':
                    tg = TableGroup.fromvalue(json.loads(json.dumps(desc)))
                else:
                    tg = TableGroup.from_file(md if e['how'] == 'path' else str(md))
                before = json.dumps(tg.asdict(omit_defaults=False))
                if e['how'] == 'cli':
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        if csvw2markdown(argparse.Namespace(url=str(md)), test=True) != 0:
                            raise ValueError('exit status')
                    text = out.getvalue()
                else:
                    text = metadata2markdown(tg, link_files=e['linked'])
                try:
                    res, dias = parse(text)
                    out = {'k': 'ok' if json.dumps(tg.asdict(omit_defaults=False)) == before else 'altered', 'md': res, 'dias': dias}
                except (Layout, ValueError, IndexError) as x:
                    out = {'k': 'layout', 'x': repr(x), 'text': T(text)}
                ev.append(dict(e, fname=[] if e['how'] == 'memory' else [T(plan['mdname'])], out=out))
        cols = [[dict(c, fmtx=fmtx(dt) if (dt := effective(m, i)) else []) for i, c in enumerate(m['cols'])] for m in plan['mds']]
        tabs = [{'url': T(n), 'there': there, 'props': ps, 'dia': bool(plan['dat']), 'md': dict(m, cols=cs)}
                for n, there, ps, m, cs in zip(plan['names'], plan['there'], plan['tprops'], plan['mds'], cols)]
        fks = [dict(f, rurl=T(plan['names'][f['rt'] - 1] if f['rt'] else 'nowhere.csv')) for f in plan['fks']]
        return {'ini': {'props': plan['gprops'], 'tabs': tabs, 'fks': fks}, 'ev': ev}
    finally:
        shutil.rmtree(str(d), ignore_errors=True)


def effective(m, i):
    """The datatype description of a column, for the text of its format."""
    for lv in reversed(m['levels'] + [m['cols'][i]['lv']]):
        if lv['datatype']:
            return lv['datatype'][0]
