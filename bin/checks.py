"""The stages of every check."""
import json, os, re, subprocess
from vlib import CheckError

GO_FRAME = 'github.com/GannettDigital/jstransform/'


def traces(run, driver, profile, spec, scale=1.0, seeds=1, race=False, history=False, thorough=8, crash_matters=False):
    """Generates traces with a driver and validates them.  A history which was rejected is not made again: schedules differ."""
    binary = run.build(driver, race)
    rounds = seeds * (thorough if run.thorough() else 1)
    for k in range(rounds):
        if k and run.left() < 60:
            run.notes.append('%s: stopped after %d of %d rounds' % (profile, k, rounds))
            break
        seed = run.seed + 1000 * k
        out = run.path('%s-%d.ndjson' % (profile, k))
        args = ['-seed', seed, '-profile', profile, '-scale', scale, '-out', out, '-scratch', run.scratch]
        if race:
            args += ['-helper', run.build(driver)]
        label = '%s%s seed %d' % (profile, ' -race' if race else '', seed)

        def crash(r):
            # a death of the process with the library on the stack is what the library did, if it happens again
            if not crash_matters or GO_FRAME not in r.stderr:
                return
            again = subprocess.run([binary] + [str(a) for a in args], capture_output=True, text=True, errors='replace', timeout=300)
            if GO_FRAME in again.stderr:
                run.violation(label, {'args': args, 'stderr': again.stderr[:6000]})
                raise CheckError('the driver died')

        whole = []
        env = {}
        if race:
            env['GORACE'] = 'halt_on_error=1 exitcode=66'
        run.drive(binary, args, env=env, crash=crash)

        def confirm(t, l, exp):
            if history and not re.search(r'\b(timeout|died|hang)\b', str(t['events'][l - 1].get('out')) + exp):
                return True
            again = run.path('again.ndjson')
            run.drive(binary, ['-seed', seed, '-profile', profile, '-scale', scale, '-out', again, '-scratch', run.scratch, '-only', t['n']], env=env)
            r = run.tlc(spec, trace=again)
            if re.search('"REJECT"|"KNOWN"' if 'not listed' in exp else '"REJECT"', r):
                return True
            # alone it is accepted; it may still be what the library keeps between traces
            if not whole:
                run.drive(binary, [again if a == out else a for a in args], env=env)
                whole.append(run.tlc(spec, trace=again).count('"REJECT"'))
            return whole[0] >= 3

        run.validate(spec, out, label, {'driver': driver, 'args': ['-seed', seed, '-profile', profile, '-scale', scale, '-only', '<n>']}, confirm)
        os.remove(out)


def stages(*specs, **kw):
    def go(run):
        for s in specs:
            s(run)
    d = {'run': go}
    d.update(kw)
    return d


def ref(profile, scale=1.0, **kw):
    return lambda run: traces(run, 'xform', profile, 'XformTrace', scale, **kw)


def fun(profile, scale=1.0, **kw):
    return lambda run: traces(run, 'xform', profile, 'Functional', scale, history=True, **kw)


def sch(profile, scale=1.0, spec='SchemaTrace', **kw):
    return lambda run: traces(run, 'schema', profile, spec, scale, **kw)


def gen(profile, scale=1.0, spec='GenTrace', **kw):
    return lambda run: traces(run, 'gen', profile, spec, scale, **kw)


def small(module, profile='small', driver='xform', spec='XformTrace', **kw):
    """Checks the specification for all cases of a module, and runs the same cases through the library."""
    def go(run):
        cases, out = run.path('cases.ndjson'), run.path(module + '.ndjson')
        run.model(module, cases=cases, note='all cases of the module', **kw)
        binary = run.build(driver)
        args = ['-seed', run.seed, '-profile', profile, '-cases', cases, '-scratch', run.scratch]
        run.drive(binary, args + ['-out', out])

        def confirm(t, l, exp):
            again = run.path('again.ndjson')
            run.drive(binary, args + ['-out', again, '-only', t['n']])
            return '"REJECT"' in run.tlc(spec, trace=again)

        run.validate(spec, out, module, {'driver': driver, 'cases': module, 'args': ['-profile', profile, '-cases', '<cases>', '-only', '<n>']}, confirm)
        os.remove(out)
    return go


def files(module):
    return small(module, driver='schema', spec='SchemaTrace')


def model(module, cfg=None, **kw):
    return lambda run: run.model(module, cfg, **kw)


OPS = ['changeCase', 'currentTime', 'duration', 'inverse', 'max', 'replace', 'split', 'timeParse', 'toCamelCase', 'removeHTML',
       'convertToFloat64', 'convertToInt64', 'convertToBool', 'valueExists']

CHECKS = {
    'C01': stages(fun('history', 1.2), fun('xmlhistory', 2), fun('xmldefaults', 3)),
    'C02': stages(fun('conc', crash_matters=True), fun('xmlconc', crash_matters=True),
                  fun('conc', 0.5, race=True, crash_matters=True), fun('xmlconc', 0.5, race=True, crash_matters=True)),
    'C03': stages(fun('notation', 2), fun('xmlnotation', 2)),
    'C04': stages(ref('sources', 2), small('SmallScalars'), small('SmallPaths')),
    'C05': stages(ref('methods', 2), ref('xmlmethods'), small('SmallScalars')),
    'C06': stages(ref('chains', 2), small('SmallOps')),
    'C07': stages(*[ref('op-' + o, 3) for o in OPS]),
    'C08': stages(ref('arrays', 2), small('SmallArrays'), small('SmallNested')),
    'C09': stages(ref('xml', 2), small('SmallXml', 'smallxml')),
    'C10': stages(ref('validate', 1.5), ref('xmlvalidate', 1.5), small('SmallValid', 'smallvalid')),
    'C11': stages(ref('types', 2)),
    'C12': stages(ref('decoys', 1.5), ref('xmldecoys', 1.5)),
    'C13': stages(ref('odd', 1.5, crash_matters=True), ref('xmlodd', 1.5, crash_matters=True)),
    'C14': stages(ref('bad', 1.5), ref('xmlbad', 1.5)),
    'C15': stages(ref('objects', 2), small('SmallObjects')),
    'C16': stages(model('Flight', 'FlightTwo', note='2 processes, 2 keys, 2 loads each'), model('Flight', note='3 processes, 1 key, 2 loads each'),
                  sch('cache', 2, 'CacheTrace', history=True, crash_matters=True),
                  sch('cache', 0.5, 'CacheTrace', history=True, race=True, crash_matters=True)),
    'C17': stages(sch('loads', 1, 'Loading', history=True, crash_matters=True), sch('again', 1, 'Loading'),
                  sch('loads', 0.4, 'Loading', history=True, race=True, crash_matters=True)),
    'C18': stages(sch('refs'), sch('circle'), files('SmallRefs')),
    'C19': stages(sch('merge'), files('SmallMerges')),
    'C20': stages(sch('walk', 0.8), files('SmallWalks')),
    'C21': stages(sch('types', 2), files('SmallTypes')),
    'C22': stages(sch('valid', 1.5), files('SmallDocs')),
    'C23': stages(gen('structs', 1.5), small('SmallStructs', driver='gen', spec='GenTrace')),
    'C24': stages(gen('again', 1, 'Functional', history=True)),
    'C25': stages(gen('json', 2)),
    'C26': stages(gen('avro', 2)),
    'C27': stages(model('Bulk', note='4 items, a sender that heeds errors'), model('Bulk', 'BulkDeaf', note='a sender that does not'),
                  gen('bulk', 2, 'BulkTrace', history=True)),
    'C28': stages(gen('graphql', 3), small('SmallGraphQL', driver='gen', spec='GenTrace')),
    'C29': stages(gen('times', 3), small('SmallTimes', driver='gen', spec='GenTrace')),
    'C30': stages(gen('msgp', 2)),
    'C31': stages(gen('cli', 1.5, 'CliTrace')),
}
