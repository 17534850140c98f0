#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CLAIMED = {}


def claim(i, technique, note):
    CLAIMED[i] = (technique, note)


claim('C03', 'type-lattice lint and throw-effect fixpoint over the resolved call graph',
      'Sound for the instantiations of the driver: every throw, handler and noexcept/throw() function of the library is covered; '
      'trusts the clang AST and that the standard library throws only where its interface documents it.')
claim('C08', 'front-end type checking of all headers and instantiations, one-definition lint',
      'Decided by the clang 18 type checker for libstdc++ 13 and C++11; complete for the listed scalars and members.')
claim('C20', 'compile-pass and compile-fail witnesses',
      'Decided by the clang 18 type checker; each rejection witness has a compiling twin that differs in the dimension only.')

AI = 'trace-partitioned abstract interpretation (relational polynomial domain, loop summaries) over the clang AST; '
claim('C01', AI + 'every exit under a negated shape relation must be a library exception with unmodified operands',
      'Holds / undecided / broken per (operation, relation, direction); only definite violations are reported. Trusts the clang AST and the standard-library models.')
claim('C02', AI + 'one bounds obligation per access',
      'Holds / undecided / broken per access site and calling context; only definite violations are reported. Undecided obligations are listed in the evidence.')
claim('C24', AI + 'operands of constant shape and unknown contents, results compared with the polynomial of the operation',
      'Complete in the element values for the listed shapes and layouts (vectors up to 9, matrices up to 3x3, sparse layouts listed), double and complex; rounding is ignored.')
claim('C05', AI + 'mesh handles on concrete heap shapes: reference counts, double release, release of live data and lost data on every exit path',
      'Complete for every handle operation pair (including self-assignment and moved-from handles) on the listed heap shapes; the handle class is found structurally.')
claim('C06', AI + 'sparse storage invariant on every exit for every enumerated layout, with symbolic values',
      'Complete in the values for all layouts up to the listed sizes (quick: representative layouts, thorough: more); longer matrices are covered only as far as the code treats rows uniformly.')
claim('C07', AI + 'iterator position, dereference and traversal order on every enumerated layout',
      'Complete in the values for all layouts up to the listed sizes; an iterator result is compared with the position list of the layout.')
claim('C19', AI + 'operands bound to the same object compared with the result for equal but distinct operands',
      'Complete in the element values for the listed constant shapes and layouts; operations whose results cannot be compared are listed as undecided.')
claim('C23', AI + 'effect analysis: no write event reaches memory owned by a read-only operand',
      'Read-only operands are frozen in sa/readonly.json (declared const parameters and receivers); decided per entry point and operand on constant shapes.')

claim('C21', AI + ' over a symbolic heap, per cell count', 'The generator is interpreted per cell count with symbolic sizes and offsets; vertices, triangles and boundary marks of the resulting heap graph are compared with the grid as polynomials. Cell counts beyond the analysed ones are not covered.')
claim('C22', AI + ' over a symbolic heap with injected inconsistencies', 'validate is interpreted on consistent heap graphs and on the same graphs with one inconsistency at each position; decided are every exit and the type thrown. Topologies are a fixed set.')
claim('C25', AI + ' over a symbolic heap', 'prepareMesh is interpreted on heap graphs; the positions of the degrees of freedom are compared as polynomials with the nodes derived from the coefficient tables in the source.')
claim('C26', AI + ' over a symbolic heap', 'addVertex, addElement, setupNeighbors and setupBoundaries are interpreted on heap graphs with permuted corner orders; the resulting graph is compared with the specification.')
claim('C09', AI + 'polynomial identities of the evaluated shape functions', 'Exact for every component, point and node values of every instantiated dimension and order; rounding is ignored.')
claim('C10', AI + 'constant tables compared with exact moments, symbolic integrand for the evaluation', 'Exact for all rules and for all polynomials up to degree 3 (5 in one dimension) as integrand; element type double.')
claim('C13', 'typestate of the simplex over ' + AI + 'queries must not return and derived fields must not be read before preparing', 'All public members and constructors of the simplex, unknown vertices.')
claim('C14', AI + 'rational-function identities modulo the non-zero determinant', 'Exact for all triangles above machine precision; orientation of the face normal is only refuted, not proved.')
claim('C16', AI + 'one obligation per floating-point division under its path condition', 'Operands of size 1 to 3 with unknown values in the listed layouts, one iteration; a zero or absent diagonal entry must be rejected. Larger sizes are covered only as far as the code treats rows uniformly.')
claim('C15', AI + 'agreement of exits of runs with different iteration maxima', 'Unknown 2x2 systems with maxima 0 to 3 (conjugate gradients 0 and 1); pivot counts for sizes up to 3. More iterations are covered only as far as the loop treats them uniformly.')
claim('C18', AI + 'noninterference: exits of runs with different old output contents must agree', 'Sizes 1 to 3, listed sparse layouts of inputs and of the old outputs, unknown old contents. A few dense 3x3 sparse cases exceed the step limit and are listed as undecided.')
claim('C17', AI + 'indeterminate values tracked from every constructor', 'All constructors on indeterminate memory; sizes 0 to 3 and list shapes up to 3x3; all entry points for reads of indeterminate values, loaders undecided.')
claim('C12', AI + 'texts of constant layout with unknown numbers, parsed OBJ shapes of constant size; every exit must be the recorded mesh or a loader exception',
      'MeshTriangleLoader::loadString on complete, truncated, commented and long records (numbers, corners and counts unknown) and MeshObjLoader::load on shapes of several sizes with unknown indices; no abort, no access outside a sequence, no unbounded reservation, right exception class. Number tokens stand for decimal digits; the OBJ parser itself (tinyobj) is modelled.')

claim('C04', AI + 'destructors of locals executed on every exit; afterwards every remaining owner is destroyed abstractly and no block the operation has allocated may be left',
      'Every function that takes or makes a mesh, both loaders, grid generation and every other function from which a new expression is reachable, on operands of constant shape. Standard containers are assumed to release their own storage; std::bad_alloc is not modelled.')

claim('C11', AI + 'the output of the exporter is collected as a text with symbolic numbers, parsed as XML and compared with mesh, options and data',
      'Constant meshes (0 to 2 triangles, linear and quadratic), all 64 option words, data maps of 0 to 2 entries including names that need escaping; vertex coordinates and data values are unknown. Two-dimensional meshes only (the others cannot be instantiated). Number formatting is the standard library.')

claim('C40', AI + 'results as rational functions of the unknown input entries; defining identities decided by clearing denominators',
      'Sizes 1 to 3 with unknown entries, size 4 with few entries off the diagonal, all listed sparse patterns, every pivot order; exact arithmetic (rounding excluded); Cholesky for real matrices. The full 3x3 sparse LU exceeds the step limit and is listed as undecided (the dense one is decided).')
claim('C44', AI + 'results as rational functions of the unknown input entries, compared with the Leibniz sum and with the identity matrix by clearing denominators',
      'Sizes 1 to 3 with unknown entries, size 4 with few entries off the diagonal, all listed sparse patterns and pivot matrices; exact arithmetic. About a dozen 3x3 sparse cases exceed the step limit and are listed as undecided.')

claim('C45', AI + 'results on constant shapes, offsets and small integers compared with the defining formulas; structure tests compared with the conjunction of their defining equations on every path',
      'Shapes up to 3x3 (and rectangular ones), offsets beyond both corners, integers up to 15, listed sparse layouts; exact arithmetic, entries that are numbers. Paths on which a determinant is cut to zero as singular to machine precision are undecided for normals.')

claim('C46', AI + 'the output is collected as a text with symbolic numbers and compared with the documented form',
      'Vectors of 0 to 5 elements, dense and fixed shapes up to 4x4, listed sparse layouts up to 4x4, unknown entries. Formatting of single numbers is the standard library.')

claim('C47', 'conversion lint over the type-checked syntax tree: every integer and floating conversion, loop condition, counter step, widened product, stream extraction and number container, with value ranges from constants, remainders, masks and choices',
      'All functions as instantiated for double and complex double; the element type a template was made for is exempt, conversions inside the standard library are not seen, and 32-bit counters are left undecided (no machine holds that many entries) unless a product is cut.')

claim('C41', AI + 'iterates as rational functions of system and start value, compared with the defining recurrence; early exits need a path fact that bounds step or residual',
      'Real systems of 1 to 3 unknowns, maxima 1 to 3; conjugate gradients beyond the first step on fixed positive definite matrices with unknown right-hand side. Exact arithmetic. That the iteration converges for a class of matrices is not claimed.')

claim('C43', AI + 'orderings of constant layouts compared with the breadth-first definition, containers with constant keys modelled as sorted sequences; permutation helpers compared entry by entry',
      'All symmetric layouts without empty rows of up to 3 rows, all of 4 rows with three kinds of diagonals, part of those of 5 rows (more in the thorough tier); permutations of up to 3 indices.')

claim('C42', AI + 'simulation: every operation from every listed storage state compared with the dense operation, and its result must be a canonical storage state again (induction over histories)',
      'Shapes 1x1, 1x3, 3x1, 2x2, 2x3, 3x2, 3x3; all layouts of the small ones, a family for the larger; values unknown and non-zero; cancellation splits the result layout. resize() keeps shape only and is not compared. Exact arithmetic.')

NA = {
}


def main():
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    checks = []
    for i in props:
        if i in CLAIMED:
            t, n = CLAIMED[i]
            checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 sa/check.py ' + i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': n})
    na = [{'property': i, 'reason': NA.get(i, 'check under construction')} for i in props if i not in CLAIMED]
    m = {'version': 1, 'setup_cmd': 'python3 sa/check.py --build', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: every check parses /repo with clang and decides rules on the resolved program; nothing of /repo is executed. No hooks in /repo.'}
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
