"""run a function over labels in forked processes"""
import os, pickle, time, traceback, select, signal

def pmap(fn, labels, jobs=8, timeout=600, then=None):
    """fn(label) -> dict, in forked children; results in order ({'error':..} for a failure);
    then(result) may add labels once a result is in"""
    res = {}
    labels = list(labels)
    todo = list(labels)
    def more(o):
        if then:
            for l in reversed(then(o) or []):
                labels.append(l)
                todo.insert(0, l)
    run = {}
    while todo or run:
        while todo and len(run) < jobs:
            l = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    try:
                        out = fn(l)
                    except BaseException as ex:
                        out = {'error': '%s: %s' % (type(ex).__name__, ex), 'trace': traceback.format_exc()[-1500:]}
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps(out))
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (l, pid, [], time.time())
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            l, pid, buf, t0 = run[r]
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del run[r]
            try:
                o = pickle.loads(b''.join(buf))
            except Exception as ex:
                o = {'error': 'worker died: %s' % ex}
            o['label'] = l
            o['wall'] = time.time() - t0
            res[l] = o
            more(o)
        for r in list(run):
            l, pid, buf, t0 = run[r]
            if time.time() - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del run[r]
                res[l] = {'error': 'timeout after %ds' % timeout, 'label': l, 'wall': timeout}
                more(res[l])
    return [res[l] for l in labels]
