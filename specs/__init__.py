from . import s_calc, s_int, s_domain, s_quat, s_rfun
from . import s_model
from . import s_spline
from . import s_tr, s_sampling, s_effects
from . import s_refuse
from . import s_trace
from . import s_grad
from . import s_width
