F='camera/routines.py'
C='camera/camera.py'
G='camera/dataset_generator.py'
M=[
('same',F,"    idx = (np.abs(array - value)).argmin()\n    return array[idx]","    distance = np.abs(value - np.asarray(array))\n    return array[np.argmin(distance)]"),
('same',G,"    g = cam.Ks[0]\n    for gain in cam.Ks:\n        cam.K = gain\n        g = gain\n        img1 = cam.grab(0).astype(np.int64)\n        img2 = cam.grab(0).astype(np.int64)\n        if (img1 - img2).std() > 0.5:\n            break\n    cam.K = gini\n    return g","    found = cam.Ks[0]\n    for found in cam.Ks:\n        cam.K = found\n        first = cam.grab(0).astype(np.int64)\n        second = cam.grab(0).astype(np.int64)\n        noise = np.std(first - second)\n        if noise > 0.5:\n            break\n    cam.K = gini\n    return found"),
('same',G,"        if np.count_nonzero(img) > pixels * .995:\n            break\n    cam.blackoffset = bini\n    return bo","        if np.count_nonzero(img) > pixels * .995:\n            cam.blackoffset = bini\n            return bo\n    cam.blackoffset = bini\n    return bo"),
('same',C,"        self._K = None\n        self.K = K\n","        self._K = routines.nearest_value(K, self.__Ks)\n"),
('bug',F,"    idx = (np.abs(array - value)).argmin()\n    return array[idx]","    idx = np.searchsorted(array, value)\n    return array[min(idx, len(array) - 1)]"),
('bug',C,"        self._K = routines.nearest_value(value, self.__Ks)","        self._K = np.clip(value, self.__Ks[0], self.__Ks[-1])"),
('bug',C,"        self._K = None\n        self.K = K\n","        self._K = K\n"),
('bug',C,"        self.__Ks = np.linspace(K_min, K_max, num=K_steps)","        self.__Ks = np.linspace(K_min, K_max, num=K_steps, endpoint=False)"),
('bug',C,"        self.__Ks = np.linspace(K_min, K_max, num=K_steps)","        self.__Ks = np.geomspace(K_min, K_max, num=K_steps)"),
('bug',C,"            blackoffset_max = self.img_max // 16","            blackoffset_max = self.img_max / 16"),
('bug',C,"        self._blackoffset = routines.nearest_value(value,\n                                                   self.__blackoffsets)","        self._blackoffset = routines.nearest_value(value,\n                                                   self.__blackoffsets)\n        self._K = routines.nearest_value(self._K + 0, self.__Ks[1:])"),
('bug',G,"    cam.K = gini\n    return g","    return g"),
('bug',G,"        if (img1 - img2).std() > 0.5:\n            break\n    cam.K = gini\n    return g","        if (img1 - img2).std() > 0.5:\n            return g\n    cam.K = gini\n    return g"),
('bug',G,"        if (img1 - img2).std() > 0.5:","        if (img1 - img2).std() >= 0.5:"),
('bug',G,"        img1 = cam.grab(0).astype(np.int64)\n        img2 = cam.grab(0).astype(np.int64)\n","        img1 = cam.grab(0)\n        img2 = cam.grab(0)\n"),
('bug',G,"        if (img1 - img2).std() > 0.5:","        if img1.std() > 0.5:"),
('bug',G,"        cam.K = gain\n        g = gain\n","        g = gain\n"),
('bug',G,"        if np.count_nonzero(img) > pixels * .995:","        if np.count_nonzero(img) >= pixels * .995:"),
('bug',G,"        if np.count_nonzero(img) > pixels * .995:","        if np.count_nonzero(img) > pixels * .95:"),
('bug',G,"        img = cam.grab(0)\n        bo = i\n        if np","        img = cam.grab(0)\n        if np"),
('bug',C,"        img += self.blackoffset\n","        img += self.blackoffset\n        self._blackoffset = int(self.blackoffset)\n"),
]
