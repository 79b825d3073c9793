class Color:
    def __init__(self, red=0, green=0, blue=0, alpha=1):
        self.red, self.green, self.blue, self.alpha = red, green, blue, alpha
    def text(self):
        return "%r/%r/%r" % (float(self.red), float(self.green), float(self.blue))
black = Color(0, 0, 0)
white = Color(1, 1, 1)
