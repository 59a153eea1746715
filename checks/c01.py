from opcheck import OpCheck
import ops.binary


class CHECK(OpCheck):
    families = ("C01",)
    quick_n = 5000
    thorough_n = 100000
