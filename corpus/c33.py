B = 'camera/bad_images.py'
L = """    for i in bad_pixel_position:
        # Change the DSNU of the camera with the bad values
        # at the random position generated above.
        cam.DSNU[i // cam.width, i % cam.width] = bad_value"""
C = """    bad_pixel_position = cam._rng.choice(pixel_num, num_bad_pixel,
                                         replace=False)"""
M = [
 ('bug', B, "replace=False", "replace=True"),
 ('bug', B, C, "    bad_pixel_position = cam._rng.integers(0, pixel_num, num_bad_pixel)"),
 ('bug', B, "i // cam.width, i % cam.width", "i // cam.height, i % cam.height"),
 ('bug', B, "i // cam.width, i % cam.width", "i % cam.height, i // cam.height"),
 ('bug', B, "pixel_num = cam.height * cam.width", "pixel_num = cam.height * cam.height"),
 ('bug', B, "pixel_num = cam.height * cam.width", "pixel_num = cam.height * cam.width - 1"),
 ('bug', B, "(1 if bad_value is None else bad_value)", "(bad_value or 1)"),
 ('bug', B, "* cam._u_esat", "* cam.img_max"),
 ('bug', B, "= bad_value\n", "+= bad_value\n") if False else ('bug', B, "i % cam.width] = bad_value", "i % cam.width] += bad_value"),
 ('bug', B, L, "    mask = np.zeros((cam.height, cam.width))\n    for i in bad_pixel_position:\n        mask[i // cam.width, i % cam.width] = bad_value\n    cam.DSNU = mask"),
 ('same', B, L, "    cam.DSNU[bad_pixel_position // cam.width, bad_pixel_position % cam.width] = bad_value"),
 ('same', B, L, "    rows, cols = np.unravel_index(bad_pixel_position, (cam.height, cam.width))\n    cam.DSNU[rows, cols] = bad_value"),
 ('same', B, L, "    cam.DSNU.flat[bad_pixel_position] = bad_value"),
 ('same', B, L, "    for i in bad_pixel_position:\n        row, column = divmod(i, cam.width)\n        cam.DSNU[row, column] = bad_value"),
 ('same', B, L, "    for i in bad_pixel_position:\n        cam.DSNU[i // cam.width][i % cam.width] = bad_value"),
 ('same', B, C, "    bad_pixel_position = cam._rng.permutation(pixel_num)[:num_bad_pixel]"),
 ('same', B, C, "    bad_pixel_position = cam._rng.choice(np.arange(pixel_num), size=num_bad_pixel, replace=False)"),
 ('same', B, L, "    dsnu = cam.DSNU\n    w = cam.width\n    for k in range(len(bad_pixel_position)):\n        p = bad_pixel_position[k]\n        dsnu[p // w, p % w] = bad_value"),
 ('same', B, L, "    dsnu = cam.DSNU.copy()\n    for i in bad_pixel_position:\n        dsnu[i // cam.width, i % cam.width] = bad_value\n    cam.DSNU = dsnu"),
 ('bug', B, L, "    dsnu = cam.DSNU.copy()\n    for i in bad_pixel_position:\n        dsnu[i // cam.width, i % cam.width] = bad_value"),
]
