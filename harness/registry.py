import props
import props2
from engine import Prop

PROPS = {c.id: c for m in (props, props2) for c in vars(m).values() if isinstance(c, type) and issubclass(c, Prop) and c.id}
