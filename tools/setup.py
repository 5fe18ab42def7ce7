"""what the checks need is installed; nothing is built"""
import shutil, sys
import z3
missing = [x for x in ('goto-cc', 'goto-instrument', 'gcc', 'make', 'perl', 'flex', 'bison', 'rsync', 'cvc5') if not shutil.which(x)]
print('z3', z3.get_version_string(), 'missing:', missing or 'nothing')
sys.exit(1 if missing else 0)
