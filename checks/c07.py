from opcheck import OpCheck
import ops.image


class CHECK(OpCheck):
    families = ("C07",)
    quick_n = 2500
    thorough_n = 100000
