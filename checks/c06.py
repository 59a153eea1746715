from opcheck import OpCheck
import ops.move


class CHECK(OpCheck):
    families = ("C06",)
    quick_n = 2500
    thorough_n = 100000
