import memory, collections_, control, text, stream, numeric, framer, python_
CHECKS = {}
for m in (memory, collections_, control, text, stream, numeric, framer, python_):
    CHECKS.update(m.CHECKS)
