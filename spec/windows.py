class Window:
    """the last window_size values, oldest first"""

    def __init__(self, window_size):
        self.window_size = window_size
        self.window = []

    def update(self, num):
        self.window.append(num)
        if len(self.window) > self.window_size:
            self.window = self.window[1:]

    def get(self):
        return self.window


class UnlimitedWindow:
    def __init__(self):
        self.window = []

    def update(self, num):
        self.window.append(num)

    def get(self):
        return self.window
