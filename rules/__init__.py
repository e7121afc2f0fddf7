from rules.table import ROOTS
# property -> (title, rule modules)
TABLE = {p: (('conform',), t[0]) for p, t in ROOTS.items()}
TABLE['C09'] = (('conform', 'inflight'), ROOTS['C09'][0])
TABLE['C31'] = (('inflight',), 'Message buffers stay untouched while a nonblocking message is in flight')
TABLE['C32'] = (('collective',), 'All processes make the same sequence of collective calls')
TABLE['C33'] = (('omprace',), 'Iterations of parallel loops do not interfere')
TABLE['C34'] = (('stride',), 'Arrays with a leading dimension are walked with it')
TABLE['C35'] = (('bounds',), 'Local buffers are accessed inside their size')
TABLE['C36'] = (('mpitypes',), 'Messages carry the element type of their buffers')
TABLE['C37'] = (('narrow',), 'Data keep their precision')
TABLE['C38'] = (('ordering',), 'Every ordering used to sort or select is a strict weak order')
TABLE['C39'] = (('lifetime',), 'No view outlives its container and no moved-from object is used')
TABLE['C40'] = (('uninit',), 'Every variable and member has a value before it is read')
TABLE['C41'] = (('progress',), 'Every loop moves towards its end')
TABLE['C42'] = (('hidden',), 'Results depend on the arguments only, nothing is kept between calls')
