"""C21: the iterative reduction: which species are tried, what is accepted, what is restored, what is recorded."""
import os
import shutil
import numpy as np
import pandas as pd
import yaml
import gen
import mdl
from p_C05 import rnd_disable
from p_C06 import state
from p_C20 import MP, make, top_dir
from harness import Skip
from plaschem.exceptions import ChemistryDisableError
from pygmo_fwork.global_model import GlobalModel
from pygmo_fwork.optichem.errors import SolutionsDiff
from pygmo_fwork.optichem.reduction import ReductionIterator
from pygmo_fwork.optichem.exceptions import ReductionInitError, ReductionRunError


class World:
    """stub solver; remembers the chemistry and the trajectory of every model run."""

    def __init__(self, rng, ch, max_error):
        self.rng, self.ch, self.runs, self.max_error = rng, ch, [], max_error
        self.modes = rng.choice([['ok'], ['ok', 'ok', 'bad'], ['ok', 'ok', 'bad', 'fail', 'interrupt'], ['bad', 'fail']])

    def solve(self, *a, **k):
        c = mdl.call_args(a, k)
        y0 = np.array(c['y0'], float)
        rng = self.rng
        mode = rng.choice(self.modes) if self.runs else 'ok'
        f = 1. if not self.runs or rng.random() < .2 else 1 + self.max_error / 100 * (rng.uniform(0, .9) if mode == 'ok' else rng.uniform(1.2, 3)) * rng.choice([1, -1])
        y = np.array([y0, y0 * abs(f), y0 * abs(f)]).T
        en = frozenset(self.ch.get_species_name().tolist())
        self.runs.append((en, frozenset(self.ch.get_reactions_id().tolist()), mode))
        if mode == 'interrupt':
            raise KeyboardInterrupt
        return mdl.Raw(np.array([0., .5, 1.]), y, mode != 'fail')


def nan(x):
    return x is None or x != x


def fam_reduction(rng, rec):
    spec = make(rng)
    ch = gen.build(spec)[0]
    heavy = [s for s in spec['species'] if not gen.special(s)]
    q = [gen.exp_charge(s) for s in heavy]
    if len(heavy) < 3 or not (any(c > 0 for c in q) and any(c == 0 for c in q)):
        raise Skip
    names = [s['name'] for s in heavy]
    for s in heavy:
        if rng.random() < .15:
            ch.set_protected_species(s['id'])
    gm = GlobalModel(ch, dict(MP))
    important = rng.sample(names + ['e', 'Te'], rng.randint(1, 2))
    times = [rng.choice([.25, .5, 1.]) for _ in range(rng.randint(1, 2))]
    max_error = rng.choice([1., 10, 30.])
    top = top_dir()
    w = World(rng, ch, max_error)
    protected = set(ch.get_protected_species().map(lambda r: r.get_name()))
    try:
        kw = dict(important_outputs=important, important_times=times, max_error=max_error, reduction_results_dir=top, verbose_level=0)
        eligible = [n for n in names if n not in protected and n not in important]
        if not eligible:
            rec.raises(ReductionInitError, lambda: ReductionIterator(gm, 'r', **kw), 'init.nothing_to_remove', str(names))
            raise Skip
        rec.raises(ReductionInitError, lambda: ReductionIterator(gm, 'r', **dict(kw, reduction_results_dir=os.path.join(top, 'no'))), 'init.no_dir')
        it = rec.total(lambda: ReductionIterator(gm, 'r', **kw), 'init.total')
        it.compress_logs = False
        rec.raises(ReductionInitError, lambda: ReductionIterator(gm, 'r', **kw), 'init.refuse_existing')
        rec.check(set(n for n in names if it.can_be_removed(n)) == set(eligible), 'init.eligible', '')
        scores = {n: rng.random() for n in names}
        calls = []

        def rank(model, first=False):
            en = list(model.model.chemistry.get_species_name())
            if not first:
                calls.append(en)
                for n in names:
                    scores[n] = rng.choice([scores[n], rng.random()])
            return pd.Series({n: scores[n] for n in en}).sort_values()

        dynamic = rng.random() < .4
        static = rank(gm, True)
        keep = static.copy()
        streak_max = rng.choice([0, 1, 2, 5])
        where = str((gen.short(spec), important, sorted(protected), max_error, streak_max, dynamic, list(static.index)))
        orders = []

        def ranked(model):
            s = rank(model)
            orders.append((len(w.runs), list(s.index)))
            return s
        with mdl.solver(w.solve):
            try:
                rec.total(lambda: it.run_reduction(ranked if dynamic else static, max_unsuccess_streak=streak_max), 'run.total', where)
            except KeyboardInterrupt:
                rec.check(False, 'run.interrupt_is_a_failed_model', where)
        h = it.reduction_history
        rec.check(static.equals(keep), 'run.ranking_untouched', where)
        check(rec, gm, ch, h, w, names, eligible, important, times, max_error, streak_max, list(static.index), orders, dynamic, where, top)
        rec.eq(sorted(ch.get_species_name()), sorted(names), 'run.chemistry_reset_at_the_end', where)
        rec.eq(len(ch.get_disabled_reactions()), 0, 'run.chemistry_reset_at_the_end', where)
    finally:
        shutil.rmtree(top)
    return gen.short(spec), len(h), list(h['rm_success'])


def check(rec, gm, ch, h, w, names, eligible, important, times, max_error, streak_max, static, orders, dynamic, where, top):
    cols = ['run_id', 'species', 'ranking_score', 'rm_success', 'rm_additional', 'total_removed', 'total_left',
            'error_base_max', 'error_base_rms', 'error_last_max', 'error_last_rms']
    rec.eq(list(h.columns), cols, 'history.columns')
    rec.eq(list(h.index), list(range(len(h))), 'history.rows')
    run = os.path.join(top, 'r')
    csv = pd.read_csv(os.path.join(run, 'reduction_history.csv'), index_col='run_index')
    rec.eq([[None if nan(v) else str(v) for v in r] for r in csv[['run_id', 'species', 'rm_success', 'rm_additional']].values.tolist()],
           [[None if nan(v) else str(v) for v in r] for r in h[['run_id', 'species', 'rm_success', 'rm_additional']].values.tolist()], 'history.saved')
    num = cols[5:]
    rec.close(csv[num].values.astype(float), h[num].values.astype(float), 'history.saved', rtol=1e-12)
    rec.eq(yaml.safe_load(open(os.path.join(run, 'meta.yaml'))), {'important_outputs': important, 'important_times': times, 'max_error': max_error}, 'history.meta')
    # replay of the history on a fresh copy
    cur = ch.copy()
    cur.reset()
    runs = list(w.runs)

    def full(en, r):
        return frozenset(en.get_species_name().tolist()), frozenset(en.get_reactions_id().tolist())
    rec.eq(runs[0][:2], full(cur, 0), 'history.base_is_the_full_chemistry', where)
    rec.check(h.at[0, 'rm_success'] is True or h.at[0, 'rm_success'] == True, 'history.base', '')  # noqa
    rec.eq((int(h.at[0, 'total_removed']), int(h.at[0, 'total_left'])), (0, len(names)), 'history.base')

    def sol(rid):
        return pd.read_csv(os.path.join(run, rid, 'solution.csv'), index_col=0)
    k, tried, streak, gone = 1, [], 0, set()
    base = last = sol(h.at[0, 'run_id'])
    order = list(orders[0][1]) if dynamic else list(static)
    oi = 1
    stopped = False
    left = set(eligible)
    for i in range(1, len(h)):
        row = h.loc[i]
        w_ = '{} step {} {}'.format(where, i, row.to_dict())
        rec.check(not stopped, 'stop.as_soon_as_the_streak_is_over', w_)
        # the next candidate is the first one of the ranking not tried before and still removable
        cand = [n for n in order if n not in tried and n in left]
        rec.check(bool(cand) and row['species'] == cand[0], 'order.lowest_rank_first', lambda: w_ + str(cand))
        rec.check(row['species'] not in important and row['species'] in eligible, 'order.only_removable', w_)
        sp = row['species']
        tried.append(sp)
        before = frozenset(cur.get_species_name().tolist())
        nxt = cur.copy()
        try:
            nxt.disable(species=[sp])
            ok = not (before - frozenset(nxt.get_species_name().tolist())) & set(important)
        except ChemistryDisableError:
            ok = False
        if ok:
            rec.check(k < len(runs), 'run.model_is_run', w_)
            rec.eq(runs[k][:2], full(nxt, 0), 'run.reduced_chemistry', w_)
            mode = runs[k][2]
            k += 1
        if not ok or mode in ('fail', 'interrupt'):
            rec.check(not row['rm_success'], 'history.failure', w_)
            rec.check(all(nan(row[c]) for c in ('run_id', 'rm_additional') + tuple(cols[7:])), 'history.failure', w_)
            rec.eq((int(row['total_removed']), int(row['total_left'])), (len(names) - len(before), len(before)), 'history.totals', w_)
            if not left:
                stopped = True
            continue
        after = frozenset(nxt.get_species_name().tolist())
        rec.check(bool(row['rm_success']), 'history.success', w_)
        rec.eq((int(row['total_removed']), int(row['total_left'])), (len(names) - len(after), len(after)), 'history.totals', w_)
        extra = before - after - {sp}
        rec.eq(sorted(row['rm_additional'].split(', ')) if not nan(row['rm_additional']) else [], sorted(extra), 'history.removed_implicitly', w_)
        rec.check(os.path.isfile(os.path.join(run, row['run_id'], 'chemistry_attributes.yaml')), 'history.logged', w_)
        s = sol(row['run_id'])
        for ref, n in ((base, 'base'), (last, 'last')):
            sd = SolutionsDiff(ref)
            rec.close([row['error_{}_max'.format(n)], row['error_{}_rms'.format(n)]],
                      [sd.get_error_max(s, important, times), sd.get_error_rms(s, important, times)], 'history.error_' + n, w_, rtol=1e-6, atol=1e-9)
        if row['error_base_max'] > max_error / 100:
            streak += 1
        else:
            streak = 0
            cur, last = nxt, s
            left -= extra | {sp}
            if dynamic:
                rec.check(oi < len(orders) and orders[oi][0] == k, 'order.recalculated_after_success', w_)
                order = list(orders[oi][1])
                oi += 1
        if streak > streak_max or not left:
            stopped = True
    rec.eq(len(runs), k, 'run.no_other_model_runs', where)
    rec.eq(len(orders), oi if dynamic else 0, 'order.recalculated_after_success', where)
    if not stopped:
        rec.eq([n for n in order if n not in tried and n in left], [], 'stop.not_before', where)


def fam_manual(rng, rec):
    """single steps, without the automatic backtracking."""
    spec = make(rng)
    ch = gen.build(spec)[0]
    heavy = [s for s in spec['species'] if not gen.special(s)]
    q = [gen.exp_charge(s) for s in heavy]
    if len(heavy) < 3 or not (any(c > 0 for c in q) and any(c == 0 for c in q)):
        raise Skip
    names = [s['name'] for s in heavy]
    gm = GlobalModel(ch, dict(MP))
    prot = set(ch.get_protected_species().map(lambda r: r.get_name()))
    w = World(rng, ch, 10.)
    top = top_dir()
    try:
        if not [n for n in names if n not in prot and n != names[0]]:
            raise Skip
        it = ReductionIterator(gm, 'm', [names[0]], [1.], 10., top, verbose_level=0)
        rec.raises(ReductionRunError, lambda: it.remove_one_species_and_run(names[-1]), 'manual.base_first')
        with mdl.solver(w.solve):
            rec.total(it.run_base_case, 'manual.total')
            rec.raises(ReductionRunError, it.run_base_case, 'manual.base_once')
            rec.raises(ReductionRunError, lambda: it.remove_one_species_and_run(names[0]), 'manual.not_removable')
            rec.raises(ReductionRunError, lambda: it.remove_one_species_and_run('nope'), 'manual.not_removable')
            cur = ch.copy()
            tried = []
            for _ in range(3):
                cand = [n for n in names if it.can_be_removed(n) and n not in tried]
                if not cand:
                    break
                sp = rng.choice(cand)
                tried.append(sp)
                bt = rng.random() < .3
                k = len(w.runs)
                nxt = cur.copy()
                try:
                    nxt.disable(species=[sp])
                    ok = names[0] in set(nxt.get_species_name())
                except ChemistryDisableError:
                    ok = False
                row = rec.total(lambda: it.remove_one_species_and_run(sp, .5, bt), 'manual.total', str((gen.short(spec), tried)))
                if ok:
                    mode = w.runs[k][2]
                    if mode not in ('fail', 'interrupt') and not (bt and row['error_base_max'] > .1):
                        cur = nxt
                where = str((gen.short(spec), tried, bt, row.to_dict()))
                if bt and (not ok or mode in ('fail', 'interrupt')):
                    break  # restored to the last state within the error, which may be an earlier one
                if bt and ok and row['error_base_max'] > .1:
                    break
                rec.eq(sorted(ch.get_species_name()), sorted(cur.get_species_name()), 'manual.state', where)
                rec.eq(sorted(ch.get_reactions_id()), sorted(cur.get_reactions_id()), 'manual.state', where)
                rec.eq(bool(row['rm_success']), ok and mode not in ('fail', 'interrupt'), 'manual.success', where)
    finally:
        shutil.rmtree(top)
    return gen.short(spec), tried


FAMILIES = [('reduction', fam_reduction, 1), ('manual', fam_manual, 2)]
