"""Write scenes in a process which has seen nothing else.

Each input line is {ident, params, ops, s, style}: the operations are done in
a child of this process, which has done none before, and the text of the scene
s comes back as a JSON string (or, as a list, what went wrong).
"""
import sys, os, json

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, HERE)


def answer(driver, job):
    driver.reset(job['ident'], job['params'])
    for op in job['ops']:
        if op['k'] == 'write':
            driver.name(op)
        else:
            driver.do(op)
    return driver.write(driver.scene(job['s']), job['style'])


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    from drivers import writer
    driver = writer.Driver('elsewhere')
    for line in sys.stdin:
        child = os.fork()
        if not child:
            try:
                text = json.dumps(answer(driver, json.loads(line)))
            except Exception as err:
                text = json.dumps(['%s: %s' % (type(err).__name__, err)])
            out.write(text + '\n')
            out.flush()
            os._exit(0)
        if os.waitpid(child, 0)[1]:
            out.write(json.dumps(['no answer']) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
