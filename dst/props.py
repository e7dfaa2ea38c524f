"""All properties."""

from . import props_run  # noqa: F401
from . import props_pair  # noqa: F401
from . import props_hist  # noqa: F401
from . import props_conv  # noqa: F401
from . import props_resume  # noqa: F401
from . import props_repr  # noqa: F401
from . import props_log  # noqa: F401
from . import props_sym  # noqa: F401
from . import props_env  # noqa: F401
from . import props_equiv  # noqa: F401
