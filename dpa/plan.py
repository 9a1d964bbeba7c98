"""Which rules decide which property, on which scenarios."""
from . import catalog, rules

ALL = ["sprm", "snipls", "rm", "ppdire", "sudire", "dicomo", "capi", "scaler", "function"]
EST = ["sprm", "snipls", "rm", "ppdire", "sudire"]


class Plan:
    def __init__(self, text, parts, floor=None):
        self.text, self.parts, self._floor = text, parts, floor or {}

    def rulenames(self):
        return [p[0].__name__ for p in self.parts]

    def floor(self, tier):
        return self._floor

    def jobs(self, tier):
        out = []
        for fn, src in self.parts:
            cs = src(tier) if callable(src) else catalog.cases(src, tier)
            need = getattr(fn, "applies", None)
            out += [(fn, c) for c in cs if need is None or need(c)]
        return out


PLAN = {
    "C01": Plan("Every in-place store reached from a public entry point is resolved to the set of buffers it may write (alias analysis over views, slices, reshapes, frames and containers); "
                "a store that may reach a buffer or container handed over by the caller is a violation.", [(rules.c01, ALL + ["plot", "vector"])], {"scenarios": 300, "store sites seen": 300}),
    "C02": Plan("After an abstract fit all storage reachable from the model is labelled; the use calls are then analysed and any attribute assignment, container mutation or array store that reaches labelled storage is a violation.",
                [(rules.c02, EST + ["scaler", "plot", "vector"])], {"scenarios": 100, "use calls": 100}),
    "C03": Plan("A second fit is analysed on an object whose state after a first fit carries a taint; a result that may depend on the taint, an option rewritten by fit, or a store into a shared default, class or module object is a violation.",
                [(rules.c03, ALL)], {"scenarios": 100, "attributes examined": 500}),
    "C07": Plan("Row-dependence analysis: predict, transform and scaling of new data are analysed with the new cases tracked; a result whose rows depend on other new cases is a violation.",
                [(rules.c07, EST + ["scaler"])], {"results examined": 100, "discharged": 100}),
    "C08": Plan("After an abstract fit of every option combination the attribute set of the object is compared, on every path, with the documented attribute table.",
                [(rules.c08, ALL)], {"attribute obligations": 1000}),
    "C09": Plan("Every documented option combination is interpreted over symbolic data of symbolic dimensions: a path that ends in an error raised inside the library (undefined name or attribute, missing key, incompatible dimensions, unknown option value) is a violation.",
                [(rules.c09, ALL + ["plot", "vector"])], {"scenarios": 300, "paths": 300}),
    "C12": Plan("Taint analysis: every result is traced back to its sources; a result that may depend on random numbers, the clock, the environment, set order, object identity or uninitialised memory is a violation.",
                [(rules.c12, ALL + ["vector"])], {"results examined": 1000}),
    "C13": Plan("Unit (dimension) inference over symbolic data with units X and y: the inferred unit of each documented result is compared with the documented one, and sums or comparisons of quantities in different units are violations.",
                [(rules.c13, ALL)], {"results examined": 500, "discharged": 400}),
    "C14": Plan("Permutation analysis: each value is classified as case-wise, equivariant, invariant or order-dependent; documented results that may depend on the order of the training cases are violations.",
                [(rules.c14, ALL)], {"results examined": 500, "discharged": 400}),
    "C16": Plan("Container analysis: every container form of the data is interpreted; arithmetic that aligns on row labels, or a result that is a pandas object or a matrix, is a violation.",
                [(rules.c16, ALL)], {"results examined": 200}),
    "C17": Plan("Symbolic shape inference with dimensions as polynomials in n, p, h and m: each documented result is compared with its documented shape on every path.",
                [(rules.c17, ALL)], {"shape obligations": 1000, "discharged": 800}),
    "C04": Plan("Each constructor option is given an opaque token that is followed through constructor, parameter listing and parameter setter; then each option is changed by the setter on a constructed object and the later fit is compared, term by term, with a fit of an object constructed with that value.",
                [(rules.c04_store, ["option"]), (rules.c04_effect, ["change"])], {"options followed": 300, "results examined": 3000}),
    "C05": Plan("Every impossible request of the table is interpreted over symbolic data: a path that returns an answer is a violation; every edge-valid request is interpreted as well and a path that refuses it is a violation.",
                [(rules.c05_bad, ["bad"]), (rules.c05_edge, ["edge"]), (rules.c05_kept, ["sprm"])], {"requests examined": 200, "discharged": 200}),
    "C06": Plan("From each fitted state new data with more, fewer, one and several columns (symbolic counts) and with the right number are submitted to every use method: a path that answers the former or refuses the latter is a violation.",
                [(rules.c06, ["newx"])], {"refusals examined": 1000, "acceptances examined": 300}),
    "C10": Plan("The term computed for the reported fitted values, residuals and scores is compared with the term that predict and transform compute from the same fitted state on the training data, modulo linear-algebra normalisation and a polynomial identity test over the fields of the terms.",
                [(rules.c10, EST)], {"agreements examined": 800, "discharged": 700}),
    "C11": Plan("Terms of transform and inverse_transform are compared with (x - location) / scale and its inverse; the scalers are interpreted on constant columns with interval values and every division by zero or missing value is a violation; a column-dependence analysis reports locations and scales that mix columns.",
                [(rules.c11_form, ["scaler"]), (rules.c11_const, ["scaler"]), (rules.c11_cols, ["column"])], {"identities examined": 800, "columns examined": 50, "results examined": 400}),
    "C18": Plan("Every call and store of the package, module level and plots included, is resolved through imports and aliases and matched with a table of process-level effects (files, network, processes, environment, global random state, numerical settings, warning filters, plot defaults, stores into other modules); "
                "the library functions reached by the abstract runs, however they are named, are matched with the same table.",
                [(rules.c18_code, catalog.modules), (rules.c18_run, EST + ["dicomo", "capi", "scaler", "function", "plot"])], {"modules examined": 20, "calls examined": 1000, "library calls reached": 1000}),
    "C24": Plan("Each option is labelled and followed from the constructor or the call to the results it governs, through data flow and through both outcomes of every decision taken on it; results that carry no label are compared, term by term, between two values of the option.",
                [(rules.c24, ["effect"])], {"options examined": 80, "results examined": 200, "discharged": 180}),
    "C15": Plan("Each weight function is reduced to a piecewise rational function of distance and cut-offs, and its range is decided region by region; the weights reported by the estimators are bounded by interval propagation and the cut-offs handed to the weight functions are followed back to their quantiles.",
                [(rules.c15_fun, ["weight"]), (rules.c15_use, ["sprm", "rm"])], {"regions examined": 30, "results examined": 500, "weight calls examined": 100}),
}
