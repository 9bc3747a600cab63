"""A signal at the k-th bytecode instruction of the code under test."""
import os, signal, sys, threading

PKG = os.path.join(os.environ.get('MC_PKG', '/nonexistent'), 'cpnest') + os.sep


class Bomb:
    """Counts the instructions executed in frames of the package; before the k-th one, fire() is called (it raises)."""
    def __init__(self, k, fire, sites=None): self.k, self.fire, self.n, self.where, self.stack, self.sites = k, fire, 0, None, [], sites

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG): return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == 'opcode' and frame.f_lineno is not None:      # not while a generator is thrown away
            self.n += 1
            if self.sites is not None: self.sites.setdefault((frame.f_code, frame.f_lasti), [self.n, 0])[1] = self.n
            if self.n == self.k:
                sys.settrace(None)
                self.where = '%s:%d (%s)' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name)
                stack = []
                f = frame
                while f is not None:
                    if f.f_code.co_filename.startswith(PKG): stack.append(f.f_code.co_name)
                    f = f.f_back
                self.stack = stack
                self.fire(signal.SIGTERM, frame)
        return self._local

    def __enter__(self):
        sys._getframe().f_trace_opcodes = True      # 3.12 only reports instructions if this was set before
        sys.settrace(self._call)
        return self
    def __exit__(self, *a): sys.settrace(None); return False
