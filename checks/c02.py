from opcheck import OpCheck
import ops.unary


class CHECK(OpCheck):
    families = ("C02",)
    quick_n = 4000
    thorough_n = 100000
