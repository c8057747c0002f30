"""What is run for each property: harness sources, library, how many cases."""
SPECS = {}

def prop(pid, parts, rule, assumptions, floor=1000):
    SPECS[pid] = dict(parts=parts, rule=rule, assumptions=assumptions, floor=floor)

A_REF = 'the reference values come from GMP and MPFR, which are trusted'

prop('C01', [dict(name='exact', src='exact.cpp', lib='core', hang=60, quick=24000, thorough=1500000)],
     'an observation is one library result compared with the exact rational computed by GMP; distinct counts operand shape, sign and size classes and operation histories',
     [A_REF])

prop('C02', [dict(name='rounded', src='rounded.cpp', lib='core', hang=60, quick=20000, thorough=1200000)],
     'an observation is one directed-rounded result compared with the correctly rounded value from MPFR/GMP; distinct counts operation, exactness and outcome classes',
     [A_REF])

prop('C03', [dict(name='validated', src='validated.cpp', lib='core', hang=60, quick=16000, thorough=800000)],
     'an observation is one enclosure compared with the exact value at a point of its arguments (GMP; MPFR for transcendental functions); distinct counts operation and argument sign shapes',
     [A_REF])

prop('C04', [dict(name='logic', src='logic.cpp', lib='core', hang=60, quick=24000, thorough=1200000)],
     'an observation is one verdict (true, false, open) compared with the hidden fact at exact points; distinct counts verdict tables, expression trees and comparison outcomes',
     [A_REF])

prop('C05', [dict(name='ambient', src='validated.cpp', lib='core', hang=60, quick=6000, thorough=400000, env={'VF_FENV':'any'}), dict(name='ambient-exact', src='exact.cpp', lib='core', hang=60, quick=8000, thorough=400000, env={'VF_FENV':'any'}), dict(name='ambient-rounded', src='rounded.cpp', lib='core', hang=60, quick=6000, thorough=400000, env={'VF_FENV':'any'}), dict(name='ambient-logic', src='logic.cpp', lib='core', hang=60, quick=4000, thorough=400000, env={'VF_FENV':'any'})],
     'an observation is the hardware rounding mode read after one library operation, or a result judged while a non-default mode is in force; distinct counts operation and argument shapes',
     [A_REF])

prop('C06', [dict(name='real', src='real.cpp', lib='core', hang=60, quick=6000, thorough=300000)],
     'an observation is one approximation of a computable real (given effort, precision or accuracy) compared with an independent MPFR interval evaluation; distinct counts expression shapes and defining sequences',
     [A_REF])

prop('C07', [dict(name='number', src='number.cpp', lib='core', hang=60, quick=12000, thorough=500000), dict(name='complex', src='complex.cpp', lib='core', hang=60, quick=4000, thorough=300000)],
     'an observation is one reading of a generic or complex number compared with an independent MPFR interval evaluation at exact points of its arguments; distinct counts operation and concrete class combinations',
     [A_REF])

prop('C09', [dict(name='linalg', src='linalg.cpp', lib='core', hang=60, quick=16000, thorough=700000)],
     'an observation is one vector or matrix result compared, coefficient by coefficient, with rational linear algebra at exact points of the operands; distinct counts operand shapes and leading coefficients',
     [A_REF])

prop('C10', [dict(name='expansion', src='expansion.cpp', lib='core', hang=60, quick=20000, thorough=1000000)],
     'an observation is the whole content of an index list or expansion compared with a plain list model after one operation of a random history; distinct counts operation histories',
     ['the list model in the harness states the intended meaning of each container operation'])

prop('C11', [dict(name='diff', src='diff.cpp', lib='core', hang=90, quick=6000, thorough=300000)],
     'an observation is one differential or series coefficient set compared with truncated power series over MPFR intervals; distinct counts operation, size and degree combinations and expression shapes',
     [A_REF])

prop('C12', [dict(name='taylor', src='taylor.cpp', lib='kernel', hang=150, quick=6000, thorough=300000)],
     'an observation is the set of values a Taylor model allows at one exact point compared with the exact image (rational or MPFR interval) of a value its operands allow there; distinct counts sweeper, size and operation combinations and expression shapes',
     [A_REF])

prop('C13', [dict(name='patch', src='patch.cpp', lib='kernel', hang=150, quick=16000, thorough=250000)],
     'an observation is the set of values a function patch allows at one exact point of its domain compared with the exact value computed from values its operands allow; distinct counts sweeper, size, term count and expression shapes',
     [A_REF, 'domain endpoints are multiples of 1/16, so that centres and radii are exact (see the known finding on scaling)'])

prop('C14', [dict(name='function', src='function.cpp', lib='kernel', hang=90, quick=40000, thorough=400000)],
     'an observation is one value or derivative of a function, formula or procedure compared with an independent MPFR interval or power-series evaluation of the same expression; distinct counts expression shapes',
     [A_REF])
prop('C15', [dict(name='poly', src='poly.cpp', lib='kernel', hang=90, quick=10000, thorough=400000)],
     'an observation is one coefficient, value or allowed set of a polynomial, Chebyshev polynomial, affine form or affine model compared with the same operation on exact rational polynomials; distinct counts operands',
     [A_REF])

prop('C16', [dict(name='symbolic', src='symbolic.cpp', lib='kernel', hang=90, quick=30000, thorough=300000)],
     'an observation is one value or truth value of a symbolic expression compared with an independent evaluation of the expression it was made from; distinct counts expression shapes',
     [A_REF])

prop('C18', [dict(name='geom', src='geom.cpp', lib='kernel', hang=90, quick=20000, thorough=500000)],
     'an observation is one relation, operation, measure or arithmetic result of intervals and boxes compared with exact rational intervals (for one-sided intervals, with an interval they may stand for); distinct counts operand pairs',
     [A_REF])

prop('C19', [dict(name='paving', src='paving.cpp', lib='full', hang=90, quick=6000, thorough=300000)],
     'an observation is the content of a paving (or the answer to a question about it) compared with an independent set of microcells carried through the same history; distinct counts histories and boxes',
     [A_REF])

prop('C20', [dict(name='meas', src='meas.cpp', lib='kernel', hang=90, quick=8000, thorough=200000)],
     'an observation is one union, relation, measure or preimage compared with an independent set of cells of the line; distinct counts operand pairs',
     [A_REF])

prop('C21', [dict(name='containers', src='containers.cpp', lib='core', hang=60, quick=100000, thorough=500000)],
     'an observation is the content of a container, or the number of live elements, after one step of a random history, compared with a plain model; distinct counts histories',
     [A_REF])

prop('C24', [dict(name='solvers', src='solvers.cpp', lib='full', hang=150, quick=6000, thorough=200000)],
     'an observation is one outcome of a solver compared with the exactly known zeros of the function; distinct counts functions with their boxes',
     [A_REF])

prop('C26', [dict(name='constraint', src='constraint.cpp', lib='full', hang=150, quick=150000, thorough=2000000)],
     'an observation is one contraction, verdict or optimum compared with a known solution or an exactly enumerated polytope; distinct counts problems',
     [A_REF])

prop('C25', [dict(name='integrate', src='integrate.cpp', lib='full', hang=150, quick=3000, thorough=100000)],
     'an observation is one enclosure of a flow, or bound for it, compared with the exact solution of the differential equation; distinct counts problems',
     [A_REF])

# memory: the same workloads, judged only by the sanitizers and by the number of live blocks
_MEM = [('exact','core',400),('rounded','core',300),('validated','core',300),('logic','core',300),('real','core',150),('number','core',300),('complex','core',150),('linalg','core',300),('expansion','core',300),('diff','core',150),('containers','core',600),
        ('taylor','kernel',300),('patch','kernel',300),('function','kernel',300),('poly','kernel',200),('symbolic','kernel',300),('geom','kernel',300),('meas','kernel',200),('paving','full',200)]
def _mem(flavour, env, only, scale, **kw):
    return [dict(name=only[:3] + '-' + n, src=n + '.cpp', lib='full', flavour=flavour, env=env, only=only, hang=300, quick=int(q * scale), thorough=int(q * scale * 30), **kw) for n, lib, q in _MEM]
_SAN = {'VF_SANITIZE':'1', 'ASAN_OPTIONS':'exitcode=66:detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS':'exitcode=66:halt_on_error=1'}
prop('C22', _mem('asan', _SAN, 'sanitizer', 1),
     'an observation is one monitored operation of the library executed under AddressSanitizer and UndefinedBehaviorSanitizer; distinct counts operand shapes',
     ['what the sanitizers of GCC 13 detect'])

prop('C30', _mem('plain', {'VF_LEAK':'1'}, 'leak', 3),
     'an observation is one monitored operation in a workload that is repeated with its live memory blocks counted; distinct counts operand shapes',
     [A_REF])
