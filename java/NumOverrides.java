import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.Value;

/** Strict(e) is e; TLC evaluates it outside of the action it occurs in, where it caches the values of LET definitions. */
public class NumOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { NumOverrides.class }; }

    @Evaluation(definition = "Strict", module = "Num", minLevel = 1, warn = false, silent = true)
    public static Value strict(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
            final TLCState s1, final int control, final CostModel cm) {
        final Value v = (Value) tool.eval(args[0], c, s0, TLCState.Empty, control, cm);
        v.deepNormalize();
        return v;
    }
}
