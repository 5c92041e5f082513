from suite_update import check_C01, check_C02
from suite_system import check_C03  # noqa: decided with the whole estimator
