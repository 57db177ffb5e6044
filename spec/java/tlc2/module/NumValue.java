package tlc2.module;

import java.io.IOException;
import java.math.BigDecimal;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.ValueConstants;
import tlc2.value.impl.*;

/** A number: a BigDecimal or one of nan, inf, -inf.  Serialises as a string. */
public final class NumValue extends Value {
  final BigDecimal d;      // null for specials
  final double special;    // meaningful when d == null
  private String s;

  NumValue(BigDecimal d) { this.d = d; this.special = 0; }
  NumValue(double special) { this.d = null; this.special = special; }

  String str() {
    if (s == null) {
      if (d == null) {
        s = Double.isNaN(special) ? "nan" : special > 0 ? "inf" : "-inf";
      } else {
        s = d.signum() == 0 ? "0" : d.stripTrailingZeros().toString();
      }
    }
    return s;
  }
  private StringValue sv() { return new StringValue(str()); }

  @Override public byte getKind() { return STRINGVALUE; }
  @Override public int compareTo(Object o) {
    if (o instanceof NumValue) return str().compareTo(((NumValue) o).str());
    return sv().compareTo(o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof NumValue) return str().equals(((NumValue) o).str());
    if (o instanceof StringValue) return str().equals(((StringValue) o).val.toString());
    return false;
  }
  @Override public boolean member(Value v) { throw new RuntimeException("member of a number"); }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on a number"); return ex.value; }
  @Override public Value takeExcept(ValueExcept[] exs) { throw new RuntimeException("EXCEPT on a number"); }
  @Override public int size() { return 1; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream vos) throws IOException { sv().write(vos); }
  @Override public long fingerPrint(long fp) { return sv().fingerPrint(fp); }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append('"').append(str()).append('"');
  }
  @Override public String toUnquotedString() { return str(); }
}
