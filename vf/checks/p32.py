'''runtime monitoring of the real recipe scripts under bash: the models, transcriptions, posteriors and features of the steps are compared with the commands run directly, over numbers of jobs, interrupted and failing runs, resumed and repeated runs'''
import glob, os, re, sys, zlib
import numpy as np
from ..core import REPO, torch, arr
from .. import cli, recipes

RULE = 'non-zero status on a failed command, same results as the direct commands, nothing redone, no input changed'
ASSUMPTIONS = ('The scripts run with a stand-in for qsub which runs the tasks locally in a random order, several at a time; a crash '
               'falls between two commands. The training of subspaces runs without a GPU, for fewer iterations, with a larger learning '
               'rate and a seed; audio2bottleneck is a stand-in.')
MAXTASKS = 40
BUDGET = (300, 800)


def project(c, d, **kw):
    pr = cli.Project(c, d, **kw)
    names = [g['group_name'] for g in pr.conf]
    new = dict(zip(names, c.rng.permutation(['non-speech-unit', 'speech-unit'][:len(names)])))
    import yaml
    for g in pr.conf:
        g['group_name'] = str(new[g['group_name']])
    pr.units = [(u, str(new[g])) for u, g in pr.units]
    with open(pr.p('hmm.yml'), 'w') as f:
        yaml.safe_dump(pr.conf, f)
    os.makedirs(pr.p('lang'))
    os.makedirs(pr.p('corpus'))
    for f in ('units', 'lang/units'):
        with open(pr.p(f), 'w') as f:
            f.write(''.join(f'{u} {g}\n' for u, g in pr.units))
    pr.dataset()
    utts = sorted(pr.feats)
    if len(utts) > 2 and c.flip(.4):
        utts = utts[:-1]
    pr.utts = [str(u) for u in c.rng.permutation(utts)]
    with open(pr.p('corpus/uttids'), 'w') as f:
        f.write(''.join(u + '\n' for u in pr.utts))
    return pr


def trouble(c, n):
    'A failure or a crash at one of about n commands.'
    at = c.int(0, max(0, n - 1))
    kind = c.choice(['early', 'late', 'crash'])
    return kind, at, lambda call, k: kind if k == at else None


def files(d, *patterns):
    return sorted(x for p in patterns for x in glob.glob(os.path.join(d, p)))


def training(c):
    kind = c.choice(['aud', 'aud', 'bigram', 'monophone'])
    with cli.scratch() as d:
        pr = project(c, d, minlen=c.int(12, 16))
        r = recipes.Recipe(c, d)
        prior = c.choice(['dirichlet2', 'hierarchical_dirichlet_process'] if kind == 'bigram' else
                         ['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process'])
        scale = float(c.choice([1., .5, 2.]))
        total = c.int(1, 3)
        long = c.flip(.06)
        if long:  # beyond one digit
            total = c.int(11, 13)
        c.note(kind=kind, utts=len(pr.utts), prior=prior, scale=scale, epochs=total)
        opts = ['--prior', prior] + (['--acoustic-scale', scale] if kind != 'monophone' else [])
        out, alis = pr.p('exp'), None
        if kind == 'monophone':
            scale = 1.
            trans = {u: pr.transcription(u) for u in pr.utts}
            with open(pr.p('corpus/trans'), 'w') as f:
                f.write(''.join(f'{u} {" ".join(t)}\n' for u, t in trans.items()))
            script, args = 'steps/monophone.sh', [pr.p('hmm.yml'), pr.p('lang'), pr.p('corpus'), pr.p('data.pkl')]
        elif kind == 'aud':
            script, args = 'steps/aud.sh', [pr.p('hmm.yml'), pr.p('lang'), pr.p('corpus'), pr.p('data.pkl')]
        else:
            cli.beer(c, 'hmm', 'mkphones', '-d', pr.p('data.pkl'), pr.p('hmm.yml'), pr.p('units'), pr.p('hmms.mdl'))
            pr.graph('--start-end-group', 'non-speech-unit')
            pr.loop(c.choice(['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process'][prior != 'dirichlet2':]))
            script, args = 'steps/aud_bigram.sh', [pr.p('0.mdl'), pr.p('corpus'), pr.p('data.pkl')]
        inputs = cli.fingerprint(*[x for x in (pr.p('hmm.yml'), pr.p('lang/units'), pr.p('corpus/uttids'), pr.p('data.pkl'),
                                               pr.p('feats.npz')) if os.path.exists(x)])
        done, k = {}, 0
        while k < total:
            k = c.int(k + 1, total) if not long else max(k + 1, c.int(8, total))
            jobs = c.int(1, 7)
            cmd = [script, *opts, '--parallel-njobs', jobs, *args, k, out]
            if c.flip(.35):
                what, at, fault = trouble(c, c.int(1, 10))
                x = r.run(*cmd, fault=fault, ok=False)
                c.note(trouble=(what, at, jobs))
                if any(y['fault'] for y in x.calls):
                    c.ev('trouble_' + what)
                    c.check(x.rc != 0, f'{script}: status 0 although "{" ".join(x.calls[at]["args"][:4])}" (command {at}) failed')
                    c.check(not os.path.exists(f'{out}/{k}.mdl') or not os.path.exists(f'{out}/final.mdl') or what == 'late',
                            f'{script}: completed although command {at} failed')
                jobs = c.int(1, 7)
                cmd[cmd.index('--parallel-njobs') + 1] = jobs
            x = r.run(*cmd)
            c.check(os.path.exists(f'{out}/final.mdl'), f'{script}: no final model')
            c.check(cli.fingerprint(*done) == done, f'{script}: training up to {k} changed earlier models')
            models = files(out, '[0-9]*.mdl')
            c.check(models == sorted(f'{out}/{i}.mdl' for i in range(k + 1)), f'{script}: models {[os.path.basename(m) for m in models]}')
            c.check(cli.fingerprint(f'{out}/{k}.mdl')[f'{out}/{k}.mdl'] == cli.fingerprint(f'{out}/final.mdl')[f'{out}/final.mdl'],
                    f'{script}: the final model is not the one of the last epoch')
            keep = models + files(out, 'hmms.mdl', 'alis.npz')
            done = cli.fingerprint(*keep)
            if c.flip(.4):
                x = r.run(*cmd)
                c.check(not x.named('accumulate') and not x.named('update'), f'{script}: repeated work of a finished training')
                c.check(cli.fingerprint(*done) == done, f'{script}: a repeated call changed the models')
        c.check(cli.fingerprint(*inputs) == inputs, f'{script}: inputs were changed')
        reference(c, pr, kind, out, total, prior, scale)
        r.close()


def reference(c, pr, kind, out, total, prior, scale):
    'The same training by direct commands.'
    ref = pr.p('ref')
    os.makedirs(ref)
    if kind == 'aud':
        cli.beer(c, '-s', 1, 'hmm', 'mkphones', '-d', pr.p('data.pkl'), pr.p('hmm.yml'), pr.p('units'), ref + '/hmms.mdl')
    if kind == 'bigram':
        cli.beer(c, 'hmm', 'mkphoneloopbigram', '--weights-prior', prior, pr.p('0.mdl'), ref + '/0.mdl')
    else:
        hmms = ref + '/hmms.mdl' if kind == 'aud' else out + '/hmms.mdl'
        cli.beer(c, 'hmm', 'mkphoneloopgraph', '--start-end-group', 'non-speech-unit', pr.p('units'), ref + '/g.pkl')
        cli.beer(c, 'hmm', 'mkdecodegraph', ref + '/g.pkl', hmms, ref + '/dg.pkl')
        cli.beer(c, 'hmm', 'mkphoneloop', '--weights-prior', prior, *(['--concentration', 50] if kind == 'aud' else []),
                 ref + '/dg.pkl', hmms, ref + '/0.mdl')
    cli.same_model(c, cli.load(out + '/0.mdl'), cli.load(ref + '/0.mdl'), 'initial model', 1e-5)
    alis = []
    if kind == 'monophone':
        alis = ['-a', out + '/alis.npz']
        os.makedirs(ref + '/ali')
        with open(pr.p('corpus/trans')) as f:
            cli.beer(c, 'hmm', 'mkaligraph', out + '/hmms.mdl', ref + '/ali', stdin=f.read())
        z = np.load(out + '/alis.npz', allow_pickle=True)
        c.check(sorted(z.files) == sorted(pr.utts), f'alignment graphs of {sorted(z.files)}, expected {sorted(pr.utts)}')
        for u in pr.utts:
            a, b = z[u][0], np.load(f'{ref}/ali/{u}.npy', allow_pickle=True)[0]
            c.check(list(a.pdf_id_mapping) == list(b.pdf_id_mapping), f'alignment graph of {u}: pdfs')
            for n in ('init_log_probs', 'final_log_probs', 'trans_log_probs'):
                c.close(getattr(a, n), getattr(b, n), f'alignment graph of {u}: {n}', 1e-5, 1e-5)
    for k in range(1, total + 1):
        e, m = ref + '/e.pkl', f'{ref}/{k}.mdl'
        cli.beer(c, 'hmm', 'accumulate', *alis, '-s', scale, f'{out}/{k - 1}.mdl', pr.p('data.pkl'), e,
                 stdin=''.join(u + '\n' for u in pr.utts))
        cli.beer(c, 'hmm', 'update', '-o', ref + '/state', f'{out}/{k - 1}.mdl', m, stdin=e + '\n')
        cli.same_model(c, cli.load(f'{out}/{k}.mdl'), cli.load(m), f'model of epoch {k}', 1e-3, scale=10.)
        c.ev('epochs')


SEED, LRATE = 7, .05


def on_cpu(args):
    'The training of subspaces as on a machine with a GPU, but here, shorter and with a seed.'
    if args[-1:] and any(a in ('shmm', 'hshmm') and b == 'train' for a, b in zip(args, args[1:])):
        if '--gpu' in args:
            args.remove('--gpu')
        n = args[args.index('--epochs') + 1]
        args[args.index('--epochs') + 1] = str(max(1, int(n) // 1000))
        for k, v in (('--learning-rate-std', str(LRATE)), ('--latent-nsamples', '2'), ('--params-nsamples', '2'),
                     ('--unit-latent-nsamples', '2'), ('--lang-latent-nsamples', '2')):
            if k in args:
                args[args.index(k) + 1] = v
        args[:0] = ['-s', str(SEED)]
    return args


def subspace(c):
    'Training of subspace phone loops: the models are those of the commands, whatever was interrupted.'
    from .p27 import others, state_of
    kind = c.choice(['mono', 'aud'])
    with cli.scratch() as d:
        # utterances start and end with a non-speech unit: both groups are needed
        pr = project(c, d, minlen=c.int(12, 16), groups=2)
        gi = [g['group_name'] for g in pr.conf].index('speech-unit')
        r = recipes.Recipe(c, d)
        r.rewrite = on_cpu
        r.env['PYTHONPATH'] = REPO
        cli.beer(c, 'hmm', 'mkphones', '-d', pr.p('data.pkl'), pr.p('hmm.yml'), pr.p('units'), pr.p('hmms.mdl'))
        pr.graph('--start-end-group', 'non-speech-unit')
        mdl = pr.loop('dirichlet')
        os.makedirs(pr.p('hmm'))
        cli.beer(c, 'hmm', 'train', mdl, pr.p('data.pkl'), pr.p('hmm/final.mdl'))
        total, L, out = c.int(1, 2), c.int(1, 3), pr.p('exp')
        alis = []
        if kind == 'mono':
            if c.flip():
                os.rename(pr.alignments(pr.utts), pr.p('hmm/alis.npz'))
                alis = ['-a', pr.p('hmm/alis.npz')]
            script, opts, args = 'steps/subspace_monophone.sh', ['--latent-dim', L], [pr.p('hmm.yml'), pr.p('hmm'), pr.p('corpus'), pr.p('data.pkl')]
        else:
            os.makedirs(pr.p('gsm'))
            cli.beer(c, 'shmm', 'mksphoneloop', '-g', 'speech-unit', '-l', L, pr.p('hmm.yml'), pr.p('hmm/final.mdl'), pr.p('gsm/gsm_final.mdl'),
                     pr.p('gsm/units_posts_final.pkl'), pr.p('s0'))
            script, opts = 'steps/subspace_aud.sh', ['--prior', c.choice(['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process'])]
            args = [pr.p('hmm.yml'), pr.p('gsm'), pr.p('lang'), pr.p('corpus'), pr.p('data.pkl')]
        c.note(kind=kind, utts=len(pr.utts), epochs=total, latent=L, alis=bool(alis), conf=pr.conf, units=pr.units)
        inputs = cli.fingerprint(*[x for x in (pr.p('hmm.yml'), pr.p('lang/units'), pr.p('corpus/uttids'), pr.p('data.pkl'), pr.p('hmm/final.mdl'),
                                               pr.p('gsm/gsm_final.mdl'), pr.p('gsm/units_posts_final.pkl')) if os.path.exists(x)])
        done, k, lengths = {}, 0, []
        while k < total:
            first, k = k, c.int(k + 1, total)
            cmd = [script, *opts, '--parallel-njobs', c.int(1, 5), *args, k, out]
            fail = c.flip(.4)
            if fail:
                what, at, fault = trouble(c, c.int(1, 12))
                x = r.run(*cmd, fault=fault, ok=False)
                c.note(trouble=(what, at))
                if any(y['fault'] for y in x.calls):
                    c.ev('trouble_' + what)
                    c.check(x.rc != 0, f'{script}: status 0 although "{" ".join(x.calls[at]["args"][:4])}" (command {at}) failed')
                cmd[cmd.index('--parallel-njobs') + 1] = c.int(1, 5)
            x = r.run(*cmd)
            n = [int(y['args'][y['args'].index('--epochs') + 1]) for y in x.named('shmm', 'train')]
            if not fail:
                want = ([15000] if kind == 'mono' and first == 0 else []) + [1000] * (k - first - 1) + [5000]
                c.check(n == want, f'{script}: the subspace was trained for {n} epochs instead of {want}')
            c.check(cli.fingerprint(*done) == done, f'{script}: training up to {k} changed earlier models')
            names = [f'{out}/{a}{i}.{b}' for i in range(k + 1) for a, b in (('', 'mdl'), ('gsm_', 'mdl'), ('units_posts_', 'pkl'))]
            done = cli.fingerprint(*names)
            for y in x.named('shmm', 'train'):
                # an epoch continues from the subspace and the latent posteriors of the epoch before
                i = re.fullmatch(r'(\d+)\.mdl', os.path.basename(y['args'][-1]))
                for j, a in ((-6, 'gsm_{}.mdl'), (-5, 'units_posts_{}.pkl')):
                    f, w = y['args'][j], f'{out}/{a.format(int(i.group(1)) - 1)}' if i and int(i.group(1)) else None
                    if w and os.path.exists(f):
                        c.check(cli.fingerprint(f)[f] == done[w], f'{script}: epoch {i.group(1)} was trained from {f} instead of {w}')
            for a, b in (('', 'mdl'), ('gsm_', 'mdl'), ('units_posts_', 'pkl')):
                c.check(cli.fingerprint(f'{out}/{a}final.{b}')[f'{out}/{a}final.{b}'] == done[f'{out}/{a}{k}.{b}'],
                        f'{script}: {a}final.{b} is not the one of the last epoch')
            if c.flip(.3):
                x = r.run(*cmd)
                c.check(not x.named('accumulate') and not x.named('train'), f'{script}: repeated work of a finished training')
                c.check(cli.fingerprint(*done) == done, f'{script}: a repeated call changed the models')
            lengths += [1] * (k - first - 1) + [5]
        c.check(cli.fingerprint(*inputs) == inputs, f'{script}: inputs were changed')
        ref = pr.p('ref')
        os.makedirs(ref)
        state = lambda g: state_of(cli.load(g))
        for i in range(1, total + 1):
            cli.beer(c, 'hmm', 'accumulate', *alis, f'{out}/{i - 1}.mdl', pr.p('data.pkl'), ref + '/e.pkl', stdin=''.join(u + '\n' for u in pr.utts))
            cli.beer(c, 'hmm', 'update', '-o', ref + '/state', f'{out}/{i - 1}.mdl', ref + '/tmp.mdl', stdin=ref + '/e.pkl\n')
            same_others(c, others(cli.load(f'{out}/{i}.mdl'), gi), others(cli.load(ref + '/tmp.mdl'), gi), f'model of epoch {i}')
            if fail:
                continue
            cli.beer(c, '-s', SEED, 'shmm', 'train', '-o', ref + '/gsm_state', '--epochs', lengths[i - 1], '-s', LRATE, '-n', 2, '-k', 2,
                     *(['-p'] if kind == 'aud' else []), f'{out}/gsm_{i - 1}.mdl', f'{out}/units_posts_{i - 1}.pkl', ref + '/tmp.mdl',
                     ref + '/gsm.mdl', ref + '/posts.pkl', ref + '/1.mdl') if not (kind == 'mono' or i > 1) else None
            if kind == 'aud':
                for x, y in zip(state(f'{out}/gsm_{i}.mdl'), state(pr.p('gsm/gsm_final.mdl'))):
                    c.check(np.array_equal(x, y), f'the subspace was changed in epoch {i}')
                if i == 1:
                    close_most(c, state_posts(f'{out}/units_posts_1.pkl'), state_posts(ref + '/posts.pkl'), state_posts(f'{out}/units_posts_0.pkl'), 'latent posteriors of epoch 1')
            else:
                moved = max(np.abs(x - y).max() for x, y in zip(state(f'{out}/gsm_{i}.mdl'), state(f'{out}/gsm_{i - 1}.mdl')) if x.size and x.dtype.kind == 'f')
                c.check(moved > LRATE / 10, f'the subspace was not trained in epoch {i}: {moved}')
            c.ev('epochs')
        r.close()


def hierarchical(c):
    'Training of hierarchical subspace phone loops of several languages.'
    from .p27 import languages, others
    kind = c.choice(['mono', 'mono', 'aud'])
    with cli.scratch() as d:
        langs, gi = languages(c, d, n=c.int(1, 3) if kind == 'mono' else c.int(1, 2), groups=2, name='speech-unit', n_utts=c.int(1, 4), minlen=12)
        r = recipes.Recipe(c, d)
        r.rewrite = on_cpu
        r.env['PYTHONPATH'] = REPO
        total, LL, LU, out = c.int(1, 2), c.int(1, 2), c.int(1, 3), r.p('exp')
        for l, pr, mdl in langs:
            os.makedirs(pr.p('hmm'))
            os.makedirs(pr.p('corpus'))
            os.rename(mdl, pr.p('hmm/final.mdl'))
            write(pr.p('corpus/uttids'), ''.join(u + '\n' for u in pr.feats))
            if kind == 'mono' and c.flip(.4):
                os.rename(pr.alignments(list(pr.feats)), pr.p('hmm/alis.npz'))
        conf = langs[0][1].p('hmm.yml')
        first = langs
        pairs = lambda n: ' '.join(f'{l},{pr.p(n)}' for l, pr, _ in langs)
        if kind == 'mono':
            script = 'steps/hsubspace_monophone.sh'
            opts, args, last = ['--unit-latent-dim', LU, '--lang-latent-dim', LL], [conf, pairs('hmm'), pairs('corpus'), pairs('data.pkl')], []
        else:
            script = 'steps/hsubspace_aud.sh'
            write(r.p('map'), ''.join(f'{pr.p("hmm/final.mdl")} {l}\n' for l, pr, _ in langs))
            os.makedirs(r.p('gsm'))
            cli.beer(c, 'hshmm', 'mksphoneloop', '-g', 'speech-unit', '-l', LL, '-t', LU, conf, r.p('map'), r.p('gsm/hgsm_final.mdl'),
                     r.p('gsm/units_posts_final.pkl'), r.p('gsm/s0'))
            pr = langs[-1][1]
            os.makedirs(pr.p('lang'))
            write(pr.p('lang/units'), read(pr.p('units')))
            opts = ['--prior', c.choice(['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process'])]
            args, last = [conf, r.p('gsm'), pr.p('lang'), pr.p('corpus'), pr.p('data.pkl')], ['new']
            langs = [('new', pr, None)]
        c.note(kind=kind, languages=[len(pr.feats) for _, pr, _ in langs], epochs=total, latent=[LL, LU], conf=first[0][1].conf,
               units=[pr.units for _, pr, _ in langs])
        inputs = cli.fingerprint(conf, *[x for _, pr, _ in first for x in (pr.p('corpus/uttids'), pr.p('data.pkl'), pr.p('feats.npz'), pr.p('hmm/final.mdl'))])
        done, k = {}, 0
        while k < total:
            k = c.int(k + 1, total)
            cmd = [script, *opts, '--parallel-njobs', c.int(1, 4), *args, k, out, *last]
            if c.flip(.5):
                what, at, fault = trouble(c, c.int(1, 10))
                x = r.run(*cmd, fault=fault, ok=False)
                c.note(trouble=(what, at))
                if any(y['fault'] for y in x.calls):
                    c.ev('trouble_' + what)
                    c.check(x.rc != 0, f'{script}: status 0 although "{" ".join(x.calls[at]["args"][:4])}" (command {at}) failed')
                cmd[cmd.index('--parallel-njobs') + 1] = c.int(1, 4)
            r.run(*cmd)
            c.check(cli.fingerprint(*done) == done, f'{script}: training up to {k} changed earlier models')
            kinds = [('', '{}.mdl')] + [('', '{}.mdl_' + l) for l, _, _ in langs] + [('', 'hgsm_{}.mdl'), ('', 'units_posts_{}.pkl')]
            done = cli.fingerprint(*[f'{out}/{b.format(i)}' for i in range(k + 1) for _, b in kinds])
            final = {'final.mdl': f'{k}.mdl', 'hgsm_final.mdl': f'hgsm_{k}.mdl', 'units_posts_final.pkl': f'units_posts_{k}.pkl'}
            final.update({f'final_{l}.mdl': f'{k}.mdl_{l}' for l, _, _ in langs})
            for a, b in final.items():
                c.check(cli.fingerprint(f'{out}/{a}')[f'{out}/{a}'] == done[f'{out}/{b}'], f'{script}: {a} is not the one of the last epoch')
            if c.flip(.3):
                x = r.run(*cmd)
                c.check(not x.named('accumulate') and not x.named('train'), f'{script}: repeated work of a finished training')
                c.check(cli.fingerprint(*done) == done, f'{script}: a repeated call changed the models')
        c.check(cli.fingerprint(*inputs) == inputs, f'{script}: inputs were changed')
        ref = r.p('ref')
        os.makedirs(ref)
        for i in range(1, total + 1):
            for l, pr, _ in langs:
                alis = ['-a', pr.p('hmm/alis.npz')] if kind == 'mono' and os.path.exists(pr.p('hmm/alis.npz')) else []
                cli.beer(c, 'hmm', 'accumulate', *alis, f'{out}/{i - 1}.mdl_{l}', pr.p('data.pkl'), ref + '/e.pkl', stdin=''.join(u + '\n' for u in pr.feats))
                cli.beer(c, 'hmm', 'update', f'{out}/{i - 1}.mdl_{l}', ref + '/tmp.mdl', stdin=ref + '/e.pkl\n')
                same_others(c, others(cli.load(f'{out}/{i}.mdl_{l}'), gi), others(cli.load(ref + '/tmp.mdl'), gi), f'model of {l}, epoch {i}')
                c.ev('epochs')
        r.close()


def same_others(c, a, b, msg):
    c.check(set(a) == set(b), f'{msg}: other parameters')
    for n in a:
        if n.startswith('trans'):
            continue
        if b[n].dtype.kind == 'f':
            c.close(a[n], b[n], f'{msg}: {n}', 1e-3, 1e-3 * (1 + (np.abs(b[n]).max() if b[n].size and np.isfinite(b[n]).all() else 0)))
        else:
            c.check(np.array_equal(a[n], b[n]), f'{msg}: {n}')


def state_posts(path):
    return [arr(p.detach()).astype(float) for p in cli.load(path)[0].parameters()]


def close_most(c, got, want, start, msg):
    'Adam moves values without gradient by rounding: most have to agree.'
    d = np.concatenate([(np.abs(g - w) < LRATE / 5).reshape(-1) for g, w in zip(got, want)])
    c.check(d.mean() > .8, f'{msg}: {d.mean():.2f} of the values agree with those of the commands')
    moved = np.concatenate([np.abs(g - w).reshape(-1) for g, w in zip(got, start)])
    c.check(moved.max() > LRATE / 10, f'{msg}: not trained')


def read(path):
    with open(path) as f:
        return f.read()


def write(path, text):
    with open(path, 'w') as f:
        f.write(text)
    return path


def attempts(c, r, cmd, result, n=6):
    """Run a step, sometimes after a run that failed; the step leaves a result
    or a non-zero status, and does nothing when called again."""
    k = cmd.index('--parallel-njobs') + 1 if '--parallel-njobs' in cmd else None
    if c.flip(.45):
        what, at, fault = trouble(c, n)
        if k:
            cmd[k] = c.int(1, 9)
        x = r.run(*cmd, fault=fault, ok=False)
        c.note(trouble=(what, at, cmd[k] if k else 0))
        if any(y['fault'] for y in x.calls):
            c.ev('trouble_' + what)
            c.check(x.rc != 0, f'{cmd[0]}: status 0 although command {at} ("{" ".join(x.calls[at]["args"][:3])}") failed')
            c.check(what == 'late' or not os.path.exists(result), f'{cmd[0]}: a result although command {at} failed')
    if k:
        cmd[k] = c.int(1, 9)
    r.run(*cmd)
    c.check(os.path.exists(result), f'{cmd[0]}: no {os.path.basename(result)}')
    before = cli.fingerprint(result)
    if c.flip(.3):
        x = r.run(*cmd)
        c.check(not x.calls, f'{cmd[0]}: repeated work that was done')
        c.check(cli.fingerprint(result) == before, f'{cmd[0]}: a repeated call changed the result')


def inference(c):
    'Decoding, alignment and posteriors of a data set.'
    with cli.scratch() as d:
        pr = project(c, d, minlen=c.int(12, 16), many=.1)
        r = recipes.Recipe(c, d)
        cli.beer(c, 'hmm', 'mkphones', '-d', pr.p('data.pkl'), pr.p('hmm.yml'), pr.p('units'), pr.p('hmms.mdl'))
        pr.graph('--start-end-group', 'non-speech-unit')
        mdl = pr.loop(c.choice(['dirichlet', 'dirichlet_process']))
        cli.beer(c, 'hmm', 'accumulate', mdl, pr.p('data.pkl'), pr.p('e.pkl'), stdin=''.join(u + '\n' for u in pr.utts))
        cli.beer(c, 'hmm', 'update', mdl, pr.p('1.mdl'), stdin=pr.p('e.pkl') + '\n')
        mdl, ds = pr.p('1.mdl'), pr.p('data.pkl')
        c.note(utts=len(pr.utts))
        stdin = ''.join(u + '\n' for u in pr.utts)
        alis = None
        steps = ['decode', 'posteriors', 'align']
        steps = [steps[i] for i in c.rng.permutation(3)[:c.int(1, 2)]]
        c.note(steps=steps, units=pr.units, conf=pr.conf)
        for step in steps:
            scale, opts = 1., []
            if c.flip():
                scale = float(c.choice([.5, 2., 1.5]))
                opts = ['--acoustic-scale', scale]
            out = pr.p('out_' + step)
            inputs = cli.fingerprint(mdl, ds, pr.p('corpus/uttids'), pr.p('feats.npz'))
            if step == 'posteriors':
                log = c.flip()
                attempts(c, r, ['steps/posteriors.sh', *(['--log-domain'] if log else []), *opts, '--parallel-njobs', 4, mdl,
                                pr.p('corpus'), ds, out], out + '/posts.npz')
                os.makedirs(pr.p('ref'), exist_ok=True)
                cli.beer(c, 'hmm', 'posteriors', *(['-l'] if log else []), '-s', scale, '-u', '-', mdl, ds, pr.p('ref'), stdin=stdin)
                z = np.load(out + '/posts.npz')
                c.check(sorted(z.files) == sorted(pr.utts), f'posteriors of {sorted(z.files)}, expected {sorted(pr.utts)}')
                for u in pr.utts:
                    c.close(z[u], np.load(pr.p(f'ref/{u}.npy')), f'posteriors of {u}', 1e-4, 1e-5)
            else:
                frames = step == 'align' or c.flip()
                if step == 'decode':
                    cmd = ['steps/decode.sh', *(['--per-frame'] if frames else []), *opts, '--parallel-njobs', 4, mdl,
                           pr.p('corpus/uttids'), ds, out]
                    ref = []
                else:
                    alis = alis or pr.alignments(pr.utts)
                    cmd = ['steps/align.sh', *opts, '--parallel-njobs', 4, mdl, alis, pr.p('corpus'), ds, out]
                    ref = ['-a', alis]
                attempts(c, r, cmd, out + '/trans')
                x = cli.beer(c, 'hmm', 'decode', *(['--per-frame'] if frames else []), *ref, '-s', scale, '-u', '-', mdl, ds, stdin=stdin)
                got = read(out + '/trans').split('\n')
                c.check(got.pop() == '', 'last line of the transcription')
                c.check(got == sorted(got), 'the transcriptions are sorted')
                c.check(sorted(got) == sorted(x.lines()), f'{step}: {len(got)} transcriptions differ from the {len(x.lines())} of the command')
                c.check(sorted(l.split()[0] for l in got) == sorted(pr.utts), f'{step}: transcriptions of other utterances')
            c.check(cli.fingerprint(*inputs) == inputs, f'{step}: inputs were changed')
            c.ev('utterances', len(pr.utts))
        r.close()


def preparation(c):
    'Features and data set of a corpus.'
    from scipy.io import wavfile
    import yaml
    with cli.scratch() as d:
        r = recipes.Recipe(c, d)
        p = r.p
        os.makedirs(p('corpus'))
        utts = {}
        for i in range(c.int(1, 12)):
            utts[c.choice(['u', 'spk1-', 'A_']) + f'{c.int(0, 99)}x{i}'] = (c.rng.normal(size=c.int(800, 3000)) * 2000).astype(np.int16)
        lines = []
        for i, (u, x) in enumerate(utts.items()):
            wavfile.write(p(f'w{i}.wav'), 16000, x)
            lines.append(f'{u} ' + (p(f'w{i}.wav') if c.flip(.8) else f'cat {p(f"w{i}.wav")} |') + '\n')
        write(p('corpus/wav.scp'), ''.join(lines))
        write(p('corpus/uttids'), ''.join(u + '\n' for u in utts))
        name = c.choice(['mfcc', 'fbank_8k', 'f'])
        conf = c.choice([{}, {'apply_dct': False}, {'apply_deltas': False}, {'nfilters': 20, 'utt_mnorm': True}])
        write(p(name + '.yml'), yaml.safe_dump(conf))
        c.note(utts=len(utts), conf=conf)
        attempts(c, r, ['steps/extract_features.sh', '--parallel-njobs', 4, p(name + '.yml'), p('corpus/wav.scp'), p('feats')],
                 p(f'feats/{name}.npz'), n=4)
        os.makedirs(p('ref'))
        cli.beer(c, 'features', 'extract', p(name + '.yml'), p('corpus/wav.scp'), p('ref'))
        z = np.load(p(f'feats/{name}.npz'))
        c.check(sorted(z.files) == sorted(utts), f'features of {sorted(z.files)}, expected {sorted(utts)}')
        for u in utts:
            x = np.load(p(f'ref/{u}.npy'))
            c.check(z[u].dtype == x.dtype and z[u].shape == x.shape and (z[u] == x).all(), f'features of {u}')
        attempts(c, r, ['steps/create_dataset.sh', p('corpus'), p(f'feats/{name}.npz'), p('sets/train.pkl')], p('sets/train.pkl'), n=1)
        ds = cli.load(p('sets/train.pkl'))
        every = np.concatenate([z[u] for u in utts])
        c.check(len(ds) == len(utts) and ds.size == len(every), f'data set of {len(ds)} utterances, {ds.size} frames')
        c.close(arr(ds.mean), every.mean(0), 'mean of the data set', 1e-3, 1e-3 * np.abs(every).max())
        got = {u.id: arr(u.features) for u in ds.utterances()}
        for u in utts:
            c.close(got[u], z[u], f'features of {u} in the data set', 1e-6, 1e-6)
        r.close()


BOTTLENECK = """#!{py} -ISE
import os, sys, zlib
import numpy as np
out = sys.argv[sys.argv.index('--outdir') + 1]
for l in sys.stdin:
    u, path = l.split()
    if os.path.exists({fail!r}) and open({fail!r}).read() == u:
        sys.exit(1)
    r = np.random.RandomState(zlib.crc32(l.encode()))
    np.save(os.path.join(out, u + '.npy'), r.normal(size=(r.randint(1, 30), 5)))
"""


def bottleneck(c):
    'Features of an external extractor.'
    with cli.scratch() as d:
        r = recipes.Recipe(c, d)
        p = r.p
        r._exe('audio2bottleneck', BOTTLENECK.format(py=os.path.realpath(sys.executable), fail=p('fail')))
        # isolated mode: the packages of the environment have to be named
        exe = open(p('.bin/audio2bottleneck')).read()
        r._exe('audio2bottleneck', exe.replace('import numpy', f'sys.path[:0] = {[x for x in sys.path if x]!r}\nimport numpy', 1))
        utts = [f'{c.choice(["u", "s-1_"])}{i}' for i in range(c.size(1, 9, 40))]
        lines = {u: f'{u} /data/{c.int(0, 99)}/{u}.wav' for u in utts}
        write(p('wav.scp'), ''.join(lines[u] + '\n' for u in utts))
        k = str(c.choice(utts))
        c.note(utts=len(utts), fail=k)
        cmd = ['steps/extract_mbn_features.sh', '--parallel-njobs', 0, p('wav.scp'), p('feats')]
        out = p('feats/mbn.npz')
        if c.flip(.3):
            write(p('fail'), k)
            cmd[2] = c.int(1, 12)
            x = r.run(*cmd, ok=False)
            c.check(x.rc != 0, 'status 0 although the extraction of an utterance failed')
            c.check(not os.path.exists(out), 'an archive although the extraction of an utterance failed')
            os.remove(p('fail'))
        attempts(c, r, cmd, out, n=1)
        z = np.load(out)
        c.check(sorted(z.files) == sorted(utts), f'features of {sorted(z.files)}, expected {sorted(utts)}')
        for u in utts:
            g = np.random.RandomState(zlib.crc32((lines[u] + '\n').encode()))
            want = g.normal(size=(g.randint(1, 30), 5))
            c.check(z[u].shape == want.shape and (z[u] == want).all(), f'features of {u}')
        r.close()


def scoring(c):
    'The scores of a step are those of the tools it runs.'
    from . import p25
    with cli.scratch() as d:
        r = recipes.Recipe(c, d)
        p = r.p
        inv, inv2 = p25.inventory(c), p25.inventory(c)
        ref = {f'u{i}': p25.frames(c, inv) for i in range(c.int(1, 6))}
        tab = {l: c.choice(inv2) for l in inv}
        hyp = {u: p25.corrupt(c, [tab[x] for x in t], inv2, same_len=True) for u, t in ref.items()}
        p25.save(c, p('ref'), ref)
        p25.save(c, p('hyp'), hyp)
        mapping = []
        if c.flip(.4):
            write(p('map'), ''.join(f'{x} {c.choice(inv)}\n' for x in sorted(set(inv))))
            mapping = ['--mapping', p('map')]
        tool = lambda name, *a: p25.run(c, name, *a)
        c.note(mapping=bool(mapping), ref=ref, hyp=hyp)
        if c.flip(.35):
            x = r.run('steps/score_ter.sh', *mapping, p('ref'), p('ref' if c.flip(.3) else 'hyp'), p('out'))
            used = x.calls[0]['args'][-1]
            want = tool('ter.py', '--no-repeat', *mapping, p('ref'), used)
            c.check(read(p('out/ter')) == want, f'score of the step {read(p("out/ter"))!r}, of the tool {want!r}')
            c.check(f'TER: {want.split(chr(10))[-2]}' in x.out, f'printed: {x.out}')
        else:
            own = []
            if c.flip(.3):
                write(p('aumap'), ''.join(f'{h} {c.choice(inv)}\n' for h in sorted(set(inv2))))
                own = ['--au-mapping', p('aumap')]
            x = r.run('steps/score_aud.sh', *mapping, *own, p('ref'), p('hyp'), p('out'))
            tool('maxoverlap_mapping.py', '--counts', p('counts.yml'), p('ref'), p('hyp'), p('amap'))
            write(p('mapped'), tool('maptrans.py', '--unk', '<unk>', own[1] if own else p('amap'), p('hyp')))
            want = {'eq_per': tool('ter.py', '--no-repeat', *mapping, p('ref'), p('mapped')),
                    'nmi': tool('nmi.py', p('counts.yml')), 'entropy_rate': tool('entropy_rate.py', p('hyp')),
                    'phone_boundaries': tool('score_boundaries.py', p('ref'), p('hyp'))}
            for k, v in want.items():
                c.check(read(p('out/' + k)) == v, f'{k} of the step {read(p("out/" + k))!r}, of the tool {v!r}')
                c.check(v.split('\n')[-2] in x.out, f'{k} is not printed: {x.out}')
            # by hand
            n = {}
            for t in hyp.values():
                for y in p25.dedup(t):
                    n[y] = n.get(y, 0) + 1
            q = np.array(list(n.values()), float) / sum(n.values())
            h = -(q * np.log2(q)).sum()
            got = [float(y) for y in want['entropy_rate'].split('\n')[-2].split(',')]
            c.check(abs(got[0] - h) <= .0051 and abs(got[1] - 2 ** h) <= .0051 + 1e-6 * 2 ** h, f'entropy rate {got}, expected {h}')
        r.close()


def corpora(c):
    'Corpora are merged, units and transcriptions prepared.'
    with cli.scratch() as d:
        r = recipes.Recipe(c, d)
        p = r.p
        phones = ['aa', 'b', 'sil', 'sh', 'u1', '<spn>']
        want = {x: {} for x in ('train', 'dev', 'test')}
        units, most = set(), {x: 0 for x in want}
        limit = c.choice([None, None, 1, 2, 5])
        for k in range(c.int(1, 3)):
            for x in want:
                os.makedirs(p(f'c{k}/{x}'))
                n = c.int(1, 8)
                ids = [c.choice(['s1', 's1-1', 's1-10', 'b', 'a_b', 'x.y', 'xzy', 'U', 'u1', 's']) + (c.choice(['', '-', '_', '.']) + str(c.int(0, 12)) if c.flip(.6) else '')
                       for _ in range(n)]
                ids = sorted({f'l{k}{y}' if c.flip(.9) else y for y in ids} - set(want[x]))
                wav = {u: f'/data/{c.choice(ids)}/{u}.wav' for u in ids}
                tr = {u: ' '.join(c.choice(phones) for _ in range(c.int(1, 5))) for u in ids}
                write(p(f'c{k}/{x}/uttids'), ''.join(u + '\n' for u in ids))
                write(p(f'c{k}/{x}/wav.scp'), ''.join(f'{u} {wav[u]}\n' for u in ids))
                write(p(f'c{k}/{x}/trans'), ''.join(f'{u} {tr[u]}\n' for u in ids))
                want[x].update({u: (wav[u], tr[u], k) for u in ids})
            os.makedirs(p(f'c{k}/lang'))
            un = [f'{c.choice(phones)} {c.choice(["speech-unit", "non-speech-unit"])}' for _ in range(c.int(1, 5))]
            units |= set(un)
            write(p(f'c{k}/lang/units'), ''.join(u + '\n' for u in un))
            r.run('utils/add_corpus.sh', *(['--max-utts', limit] if limit else []), p(f'c{k}'), p('out'))
            for x in want:
                ids = read(p(f'out/{x}/uttids')).split()
                c.check(len(ids) == len(set(ids)) and set(ids) <= set(want[x]), f'{x}: utterances {sorted(ids)} of {sorted(want[x])}')
                for j in range(k + 1):
                    of = [u for u in want[x] if want[x][u][2] == j]
                    have = [u for u in ids if u in of]
                    c.check(len(have) == min(limit or 10 ** 6, len(of)), f'{x}: {len(have)} utterances of corpus {j} ({len(of)}), limit {limit}')
                for f, i in (('wav.scp', 0), ('trans', 1)):
                    got = sorted(read(p(f'out/{x}/{f}')).split('\n')[:-1])
                    c.check(got == sorted(f'{u} {want[x][u][i]}' for u in ids), f'{x}/{f}: {got} for the utterances {sorted(ids)}')
            c.check(read(p('out/lang/units')).split('\n')[:-1] == sorted(units), f'units {read(p("out/lang/units"))}')
        c.note(limit=limit, corpora=want)
        c.ev('corpora', k + 1)
        tool = lambda name, *a, **kw: cli.beer(c, *a, script=os.path.join(p('utils'), name), **kw)
        trans = {f'u{i}': [c.choice(phones) for _ in range(c.int(0, 8))] for i in range(c.int(1, 6))}
        write(p('trans'), ''.join(' '.join([u, *t]) + '\n' for u, t in trans.items()))
        ex = [q for q in phones if c.flip(.3)]
        x = tool('add_prefix.py', *(['-e', ','.join(ex)] if ex else []), p('trans'), 'EN_')
        c.check([l.split() for l in x.lines()] == [[u, *[q if q in ex else 'EN_' + q for q in t]] for u, t in trans.items()],
                f'prefixed transcription {x.out}')
        n, sil = c.int(1, 120), c.flip()
        x = tool('prepare_lang_aud.py', *(['--non-speech-unit'] if sil else []), n)
        got = [l.split() for l in x.lines()]
        c.check(len({u for u, _ in got}) == len(got) == n + sil and sum(g == 'speech-unit' for _, g in got) == n
                and sum(g == 'non-speech-unit' for _, g in got) == sil, f'units {got}')
        lex = {f'w{i}': [c.choice(phones) for _ in range(c.int(1, 4))] for i in range(c.int(1, 6))}
        text = {f'u{i}': [c.choice([*lex, *(['oov'] if c.flip(.2) else [])]) for _ in range(c.int(1, 6))] for i in range(c.int(1, 6))}
        write(p('lex'), ''.join(' '.join([w, *t]) + '\n' for w, t in lex.items()))
        write(p('text'), ''.join(' '.join([u, *t]) + '\n' for u, t in text.items()))
        x = tool('prepare_phone_trans.py', *(['--add-sil'] if sil else []), p('lex'), p('text'))
        side = ['sil'] if sil else []
        c.check([l.split() for l in x.lines()] == [[u, *side, *sum((lex[w] for w in t), []), *side] for u, t in text.items() if 'oov' not in t],
                f'phone transcription {x.out}')
        c.check(all(u in x.err for u, t in text.items() if 'oov' in t), f'utterances with unknown words are reported: {x.err}')
        r.close()


def jobs(c):
    'A failed task is a failed job, in every recipe.'
    name = c.choice(['aud', 'timit_v2', 'zrc2019'])
    with cli.scratch() as d:
        r = recipes.Recipe(c, d, name)
        n, njobs = c.int(1, 20), c.int(1, 12)
        utts = [f'u{i}' for i in range(n)]
        write(r.p('list'), ''.join(u + '\n' for u in utts))
        bad = c.int(1, njobs) if c.flip(.6) else 0
        tool = r.p('work')
        r._exe('work', '#!/bin/bash\n[ "$1" == %d ] && exit %d\nsort > $2\nexit 0\n' % (bad, c.choice([1, 2, 127])))
        os.rename(r.p('.bin/work'), tool)
        c.note(recipe=name, n=n, njobs=njobs, bad=bad)
        if c.flip():
            x = r.run('utils/parallel/submit_parallel.sh', 'sge', 'job', '-l mem=1G', njobs, 'list', f'{tool} JOBID done.JOBID', 'out', ok=False)
            c.check((x.rc != 0) == bool(bad), f'array job with task {bad} failing: status {x.rc}')
            got = sorted(sum((read(f).split() for f in files(d, 'done.*')), []))
            if not bad:
                c.check(got == sorted(utts), f'{len(got)} utterances processed of {n}')
        else:
            k = bad if bad and c.flip() else c.int(1, 3)
            write(r.p('in'), 'x\n')
            x = r.run('utils/parallel/submit_single.sh', 'sge', 'job', '-l mem=1G', f'{tool} {k} done.{k}', 'out', ok=False)
            c.check((x.rc != 0) == (k == bad), f'job {"failing" if k == bad else "succeeding"}: status {x.rc}')
            c.check((k == bad) or os.path.exists(r.p(f'done.{k}')), 'the command was not run')
        r.close()


CASES = [(training, 110, 900), (inference, 60, 600), (preparation, 40, 400),
         (bottleneck, 24, 300), (subspace, 20, 300), (hierarchical, 16, 200),
         (jobs, 40, 300), (scoring, 30, 250), (corpora, 30, 300)]


def warm():
    import beer, yaml
    import beer.cli.subcommands
    from beer.cli.subcommands import hmm
