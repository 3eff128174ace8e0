"""univariate estimator configurations shared by several contracts"""
from lib import *
from robpy.univariate import UnivariateMCD, OneStepWrapping, CellwiseOneStepM, HuberOneStepM, Qn, Tau
from robpy.univariate.onestep_m import OneStepM
from robpy.utils.rho import TukeyBisquare, Huber
CONF = [
    ("UnivariateMCD()", lambda: UnivariateMCD()),
    ("UnivariateMCD(alpha=.75)", lambda: UnivariateMCD(alpha=.75)),
    ("UnivariateMCD(alpha=.6,cc=False)", lambda: UnivariateMCD(alpha=.6, consistency_correction=False)),
    ("UnivariateMCD(alpha=1)", lambda: UnivariateMCD(alpha=1)),
    ("UnivariateMCD(cc=False)", lambda: UnivariateMCD(consistency_correction=False)),
    ("OneStepWrapping", lambda: OneStepWrapping()),
    ("HuberOneStepM", lambda: HuberOneStepM()),
    ("CellwiseOneStepM", lambda: CellwiseOneStepM()),
    ("OneStepM(Tukey 4,Tukey 5)", lambda: OneStepM(TukeyBisquare(c=4.), TukeyBisquare(c=5.), .8)),
    ("Qn()", lambda: Qn()),
    ("Qn(mean, no corr)", lambda: Qn(location_func=np.mean, consistency_correction=False, finite_correction=False)),
    ("Qn(no finite)", lambda: Qn(finite_correction=False)),
    ("Tau()", lambda: Tau()),
    ("Tau(c1=3,c2=2,cc=False)", lambda: Tau(c1=3., c2=2., consistency_correction=False)),
]
