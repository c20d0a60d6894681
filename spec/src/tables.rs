//! Frozen reference tables (see tools/gen_tables.py).
pub const NBR: [[u8; 7]; 122] = [
    [0, 1, 5, 2, 4, 3, 8],
    [1, 7, 6, 9, 0, 3, 2],
    [2, 6, 10, 11, 0, 1, 5],
    [3, 13, 1, 7, 4, 12, 0],
    [4, 127, 15, 8, 3, 0, 12],
    [5, 2, 18, 10, 8, 0, 16],
    [6, 14, 11, 17, 1, 9, 2],
    [7, 21, 9, 19, 3, 13, 1],
    [8, 5, 22, 16, 4, 0, 15],
    [9, 19, 14, 20, 1, 7, 6],
    [10, 11, 24, 23, 5, 2, 18],
    [11, 17, 23, 25, 2, 6, 10],
    [12, 28, 13, 26, 4, 15, 3],
    [13, 26, 21, 29, 3, 12, 7],
    [14, 127, 17, 27, 9, 20, 6],
    [15, 22, 28, 31, 4, 8, 12],
    [16, 18, 33, 30, 8, 5, 22],
    [17, 11, 14, 6, 35, 25, 27],
    [18, 24, 30, 32, 5, 10, 16],
    [19, 34, 20, 36, 7, 21, 9],
    [20, 14, 19, 9, 40, 27, 36],
    [21, 38, 19, 34, 13, 29, 7],
    [22, 16, 41, 33, 15, 8, 31],
    [23, 24, 11, 10, 39, 37, 25],
    [24, 127, 32, 37, 10, 23, 18],
    [25, 23, 17, 11, 45, 39, 35],
    [26, 42, 29, 43, 12, 28, 13],
    [27, 40, 35, 46, 14, 20, 17],
    [28, 31, 42, 44, 12, 15, 26],
    [29, 43, 38, 47, 13, 26, 21],
    [30, 32, 48, 50, 16, 18, 33],
    [31, 41, 44, 53, 15, 22, 28],
    [32, 30, 24, 18, 52, 50, 37],
    [33, 30, 49, 48, 22, 16, 41],
    [34, 19, 38, 21, 54, 36, 51],
    [35, 46, 45, 56, 17, 27, 25],
    [36, 20, 34, 19, 55, 40, 54],
    [37, 39, 52, 57, 24, 23, 32],
    [38, 127, 34, 51, 29, 47, 21],
    [39, 37, 25, 23, 59, 57, 45],
    [40, 27, 36, 20, 60, 46, 55],
    [41, 49, 53, 61, 22, 33, 31],
    [42, 58, 43, 62, 28, 44, 26],
    [43, 62, 47, 64, 26, 42, 29],
    [44, 53, 58, 65, 28, 31, 42],
    [45, 39, 35, 25, 63, 59, 56],
    [46, 60, 56, 68, 27, 40, 35],
    [47, 38, 43, 29, 69, 51, 64],
    [48, 49, 30, 33, 67, 66, 50],
    [49, 127, 61, 66, 33, 48, 41],
    [50, 48, 32, 30, 70, 67, 52],
    [51, 69, 54, 71, 38, 47, 34],
    [52, 57, 70, 74, 32, 37, 50],
    [53, 61, 65, 75, 31, 41, 44],
    [54, 71, 55, 73, 34, 51, 36],
    [55, 40, 54, 36, 72, 60, 73],
    [56, 68, 63, 77, 35, 46, 45],
    [57, 59, 74, 78, 37, 39, 52],
    [58, 127, 62, 76, 44, 65, 42],
    [59, 63, 78, 79, 39, 45, 57],
    [60, 72, 68, 80, 40, 55, 46],
    [61, 53, 49, 41, 81, 75, 66],
    [62, 43, 58, 42, 82, 64, 76],
    [63, 127, 56, 45, 79, 59, 77],
    [64, 47, 62, 43, 84, 69, 82],
    [65, 58, 53, 44, 86, 76, 75],
    [66, 67, 81, 85, 49, 48, 61],
    [67, 66, 50, 48, 87, 85, 70],
    [68, 56, 60, 46, 90, 77, 80],
    [69, 51, 64, 47, 89, 71, 84],
    [70, 67, 52, 50, 83, 87, 74],
    [71, 89, 73, 91, 51, 69, 54],
    [72, 127, 73, 55, 80, 60, 88],
    [73, 91, 72, 88, 54, 71, 55],
    [74, 78, 83, 92, 52, 57, 70],
    [75, 65, 61, 53, 94, 86, 81],
    [76, 86, 82, 96, 58, 65, 62],
    [77, 63, 68, 56, 93, 79, 90],
    [78, 74, 59, 57, 95, 92, 79],
    [79, 78, 63, 59, 93, 95, 77],
    [80, 68, 72, 60, 99, 90, 88],
    [81, 85, 94, 101, 61, 66, 75],
    [82, 96, 84, 98, 62, 76, 64],
    [83, 127, 74, 70, 100, 87, 92],
    [84, 69, 82, 64, 97, 89, 98],
    [85, 87, 101, 102, 66, 67, 81],
    [86, 76, 75, 65, 104, 96, 94],
    [87, 83, 102, 100, 67, 70, 85],
    [88, 72, 91, 73, 99, 80, 105],
    [89, 97, 91, 103, 69, 84, 71],
    [90, 77, 80, 68, 106, 93, 99],
    [91, 73, 89, 71, 105, 88, 103],
    [92, 83, 78, 74, 108, 100, 95],
    [93, 79, 90, 77, 109, 95, 106],
    [94, 86, 81, 75, 107, 104, 101],
    [95, 92, 79, 78, 109, 108, 93],
    [96, 104, 98, 110, 76, 86, 82],
    [97, 127, 98, 84, 103, 89, 111],
    [98, 110, 97, 111, 82, 96, 84],
    [99, 80, 105, 88, 106, 90, 113],
    [100, 102, 83, 87, 108, 114, 92],
    [101, 102, 107, 112, 81, 85, 94],
    [102, 101, 87, 85, 114, 112, 100],
    [103, 91, 97, 89, 116, 105, 111],
    [104, 107, 110, 115, 86, 94, 96],
    [105, 88, 103, 91, 113, 99, 116],
    [106, 93, 99, 90, 117, 109, 113],
    [107, 127, 101, 94, 115, 104, 112],
    [108, 100, 95, 92, 118, 114, 109],
    [109, 108, 93, 95, 117, 118, 106],
    [110, 98, 104, 96, 119, 111, 115],
    [111, 97, 110, 98, 116, 103, 119],
    [112, 107, 102, 101, 120, 115, 114],
    [113, 99, 116, 105, 117, 106, 121],
    [114, 112, 100, 102, 118, 120, 108],
    [115, 110, 107, 104, 120, 119, 112],
    [116, 103, 119, 111, 113, 105, 121],
    [117, 127, 109, 118, 113, 121, 106],
    [118, 120, 108, 114, 117, 121, 109],
    [119, 111, 115, 110, 121, 116, 120],
    [120, 115, 114, 112, 121, 119, 118],
    [121, 116, 120, 119, 117, 113, 118],
];
pub const NBR_ROT: [[u8; 7]; 122] = [
    [0, 5, 0, 0, 1, 5, 1],
    [0, 0, 1, 0, 1, 0, 1],
    [0, 0, 0, 0, 0, 5, 0],
    [0, 5, 0, 0, 2, 5, 1],
    [0, 0, 1, 0, 3, 4, 2],
    [0, 0, 1, 0, 1, 0, 1],
    [0, 0, 0, 3, 5, 5, 0],
    [0, 0, 0, 0, 0, 5, 0],
    [0, 5, 0, 0, 0, 5, 1],
    [0, 0, 1, 3, 0, 0, 1],
    [0, 0, 1, 3, 0, 0, 1],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 5, 0, 0, 3, 5, 1],
    [0, 0, 1, 0, 1, 0, 1],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 5, 0, 0, 4, 5, 1],
    [0, 0, 0, 0, 0, 5, 0],
    [0, 3, 3, 3, 3, 0, 3],
    [0, 0, 0, 3, 5, 5, 0],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 3, 3, 3, 0, 3, 0],
    [0, 0, 0, 3, 5, 5, 0],
    [0, 0, 1, 0, 1, 0, 1],
    [0, 3, 3, 3, 0, 3, 0],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 0, 0, 3, 0, 0, 3],
    [0, 0, 0, 0, 0, 5, 0],
    [0, 3, 0, 0, 0, 3, 3],
    [0, 0, 1, 0, 1, 0, 1],
    [0, 0, 1, 3, 0, 0, 1],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 0, 0, 0, 0, 5, 0],
    [0, 3, 3, 3, 3, 0, 3],
    [0, 0, 1, 3, 0, 0, 1],
    [0, 3, 3, 3, 3, 0, 3],
    [0, 0, 3, 0, 3, 0, 3],
    [0, 0, 0, 3, 0, 0, 3],
    [0, 3, 0, 0, 0, 3, 3],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 3, 0, 0, 3, 3, 0],
    [0, 3, 0, 0, 3, 3, 0],
    [0, 0, 0, 3, 5, 5, 0],
    [0, 0, 0, 3, 5, 5, 0],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 0, 1, 3, 0, 0, 1],
    [0, 0, 3, 0, 0, 3, 3],
    [0, 0, 0, 3, 0, 3, 0],
    [0, 3, 3, 3, 0, 3, 0],
    [0, 3, 3, 3, 0, 3, 0],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 0, 0, 3, 0, 0, 3],
    [0, 3, 0, 0, 0, 3, 3],
    [0, 0, 3, 0, 3, 0, 3],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 0, 3, 0, 3, 0, 3],
    [0, 0, 3, 0, 0, 3, 3],
    [0, 3, 3, 3, 0, 0, 3],
    [0, 0, 0, 3, 0, 3, 0],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 3, 3, 3, 3, 3, 0],
    [0, 3, 3, 3, 3, 3, 0],
    [0, 3, 3, 3, 3, 0, 3],
    [0, 3, 3, 3, 3, 0, 3],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 0, 0, 3, 0, 0, 3],
    [0, 3, 3, 3, 0, 3, 0],
    [0, 3, 0, 0, 0, 3, 3],
    [0, 3, 0, 0, 3, 3, 0],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 3, 0, 0, 3, 3, 0],
    [0, 0, 3, 0, 0, 3, 3],
    [0, 0, 0, 3, 0, 3, 0],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 3, 3, 3, 0, 0, 3],
    [0, 3, 3, 3, 0, 0, 3],
    [0, 0, 0, 3, 0, 0, 3],
    [0, 3, 0, 0, 0, 3, 3],
    [0, 0, 0, 3, 0, 5, 0],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 0, 1, 3, 1, 0, 1],
    [0, 0, 1, 3, 1, 0, 1],
    [0, 0, 3, 0, 3, 0, 3],
    [0, 0, 3, 0, 3, 0, 3],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 0, 3, 0, 0, 3, 3],
    [0, 0, 0, 3, 0, 3, 0],
    [0, 3, 0, 0, 3, 3, 0],
    [0, 3, 3, 3, 3, 3, 0],
    [0, 0, 0, 3, 0, 5, 0],
    [0, 3, 3, 3, 3, 3, 0],
    [0, 0, 0, 0, 0, 0, 1],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 0, 0, 3, 0, 5, 0],
    [0, 5, 0, 0, 5, 5, 0],
    [0, 0, 3, 0, 0, 3, 3],
    [0, 0, 0, 0, 0, 0, 1],
    [0, 0, 0, 3, 0, 3, 0],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 3, 3, 3, 0, 0, 3],
    [0, 5, 0, 0, 5, 5, 0],
    [0, 0, 1, 3, 1, 0, 1],
    [0, 3, 3, 3, 0, 0, 3],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 0, 1, 3, 1, 0, 1],
    [0, 3, 3, 3, 3, 3, 0],
    [0, 0, 0, 0, 0, 0, 1],
    [0, 0, 1, 0, 3, 5, 1],
    [0, 0, 3, 0, 5, 2, 0],
    [0, 5, 0, 0, 5, 5, 0],
    [0, 0, 1, 0, 4, 5, 1],
    [0, 3, 3, 3, 0, 0, 0],
    [0, 0, 0, 3, 0, 5, 0],
    [0, 0, 0, 3, 0, 5, 0],
    [0, 0, 1, 0, 2, 5, 1],
    [0, 0, 0, 0, 0, 0, 1],
    [0, 0, 1, 3, 1, 0, 1],
    [0, 5, 0, 0, 5, 5, 0],
    [0, 0, 1, 0, 3, 4, 2],
    [0, 0, 1, 0, 0, 5, 1],
    [0, 0, 0, 0, 0, 0, 1],
    [0, 5, 0, 0, 5, 5, 0],
    [0, 0, 1, 0, 1, 5, 1],
];
pub const HOME: [[i32; 4]; 122] = [
    [1, 1, 0, 0],
    [2, 1, 1, 0],
    [1, 0, 0, 0],
    [2, 1, 0, 0],
    [0, 2, 0, 0],
    [1, 1, 1, 0],
    [1, 0, 0, 1],
    [2, 0, 0, 0],
    [0, 1, 0, 0],
    [2, 0, 1, 0],
    [1, 0, 1, 0],
    [1, 0, 1, 1],
    [3, 1, 0, 0],
    [3, 1, 1, 0],
    [11, 2, 0, 0],
    [4, 1, 0, 0],
    [0, 0, 0, 0],
    [6, 0, 1, 0],
    [0, 0, 0, 1],
    [2, 0, 1, 1],
    [7, 0, 0, 1],
    [2, 0, 0, 1],
    [0, 1, 1, 0],
    [6, 0, 0, 1],
    [10, 2, 0, 0],
    [6, 0, 0, 0],
    [3, 0, 0, 0],
    [11, 1, 0, 0],
    [4, 1, 1, 0],
    [3, 0, 1, 0],
    [0, 0, 1, 1],
    [4, 0, 0, 0],
    [5, 0, 1, 0],
    [0, 0, 1, 0],
    [7, 0, 1, 0],
    [11, 1, 1, 0],
    [7, 0, 0, 0],
    [10, 1, 0, 0],
    [12, 2, 0, 0],
    [6, 1, 0, 1],
    [7, 1, 0, 1],
    [4, 0, 0, 1],
    [3, 0, 0, 1],
    [3, 0, 1, 1],
    [4, 0, 1, 0],
    [6, 1, 0, 0],
    [11, 0, 0, 0],
    [8, 0, 0, 1],
    [5, 0, 0, 1],
    [14, 2, 0, 0],
    [5, 0, 0, 0],
    [12, 1, 0, 0],
    [10, 1, 1, 0],
    [4, 0, 1, 1],
    [12, 1, 1, 0],
    [7, 1, 0, 0],
    [11, 0, 1, 0],
    [10, 0, 0, 0],
    [13, 2, 0, 0],
    [10, 0, 0, 1],
    [11, 0, 0, 1],
    [9, 0, 1, 0],
    [8, 0, 1, 0],
    [6, 2, 0, 0],
    [8, 0, 0, 0],
    [9, 0, 0, 1],
    [14, 1, 0, 0],
    [5, 1, 0, 1],
    [16, 0, 1, 1],
    [8, 1, 0, 1],
    [5, 1, 0, 0],
    [12, 0, 0, 0],
    [7, 2, 0, 0],
    [12, 0, 1, 0],
    [10, 0, 1, 0],
    [9, 0, 0, 0],
    [13, 1, 0, 0],
    [16, 0, 0, 1],
    [15, 0, 1, 1],
    [15, 0, 1, 0],
    [16, 0, 1, 0],
    [14, 1, 1, 0],
    [13, 1, 1, 0],
    [5, 2, 0, 0],
    [8, 1, 0, 0],
    [14, 0, 0, 0],
    [9, 1, 0, 1],
    [14, 0, 0, 1],
    [17, 0, 0, 1],
    [12, 0, 0, 1],
    [16, 0, 0, 0],
    [17, 0, 1, 1],
    [15, 0, 0, 1],
    [16, 1, 0, 1],
    [9, 1, 0, 0],
    [15, 0, 0, 0],
    [13, 0, 0, 0],
    [8, 2, 0, 0],
    [13, 0, 1, 0],
    [17, 1, 0, 1],
    [19, 0, 1, 0],
    [14, 0, 1, 0],
    [19, 0, 1, 1],
    [17, 0, 1, 0],
    [13, 0, 0, 1],
    [17, 0, 0, 0],
    [16, 1, 0, 0],
    [9, 2, 0, 0],
    [15, 1, 0, 1],
    [15, 1, 0, 0],
    [18, 0, 1, 1],
    [18, 0, 0, 1],
    [19, 0, 0, 1],
    [17, 1, 0, 0],
    [19, 0, 0, 0],
    [18, 0, 1, 0],
    [18, 1, 0, 1],
    [19, 2, 0, 0],
    [19, 1, 0, 0],
    [18, 0, 0, 0],
    [19, 1, 0, 1],
    [18, 1, 0, 0],
];
pub const CW_OFFSET: [[i32; 2]; 122] = [
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [2, 6],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [1, 5],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [3, 7],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [0, 9],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [4, 8],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [11, 15],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [12, 16],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [10, 19],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [13, 17],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [14, 18],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
    [-1, -1],
];
pub const FACE_BC: [[u8; 27]; 20] = [
    [16, 18, 24, 33, 30, 32, 49, 48, 50, 8, 5, 10, 22, 16, 18, 41, 33, 30, 4, 0, 2, 15, 8, 5, 31, 22, 16],
    [2, 6, 14, 10, 11, 17, 24, 23, 25, 0, 1, 9, 5, 2, 6, 18, 10, 11, 4, 3, 7, 8, 0, 1, 16, 5, 2],
    [7, 21, 38, 9, 19, 34, 14, 20, 36, 3, 13, 29, 1, 7, 21, 6, 9, 19, 4, 12, 26, 0, 3, 13, 2, 1, 7],
    [26, 42, 58, 29, 43, 62, 38, 47, 64, 12, 28, 44, 13, 26, 42, 21, 29, 43, 4, 15, 31, 3, 12, 28, 7, 13, 26],
    [31, 41, 49, 44, 53, 61, 58, 65, 75, 15, 22, 33, 28, 31, 41, 42, 44, 53, 4, 8, 16, 12, 15, 22, 26, 28, 31],
    [50, 48, 49, 32, 30, 33, 24, 18, 16, 70, 67, 66, 52, 50, 48, 37, 32, 30, 83, 87, 85, 74, 70, 67, 57, 52, 50],
    [25, 23, 24, 17, 11, 10, 14, 6, 2, 45, 39, 37, 35, 25, 23, 27, 17, 11, 63, 59, 57, 56, 45, 39, 46, 35, 25],
    [36, 20, 14, 34, 19, 9, 38, 21, 7, 55, 40, 27, 54, 36, 20, 51, 34, 19, 72, 60, 46, 73, 55, 40, 71, 54, 36],
    [64, 47, 38, 62, 43, 29, 58, 42, 26, 84, 69, 51, 82, 64, 47, 76, 62, 43, 97, 89, 71, 98, 84, 69, 96, 82, 64],
    [75, 65, 58, 61, 53, 44, 49, 41, 31, 94, 86, 76, 81, 75, 65, 66, 61, 53, 107, 104, 96, 101, 94, 86, 85, 81, 75],
    [57, 59, 63, 74, 78, 79, 83, 92, 95, 37, 39, 45, 52, 57, 59, 70, 74, 78, 24, 23, 25, 32, 37, 39, 50, 52, 57],
    [46, 60, 72, 56, 68, 80, 63, 77, 90, 27, 40, 55, 35, 46, 60, 45, 56, 68, 14, 20, 36, 17, 27, 40, 25, 35, 46],
    [71, 89, 97, 73, 91, 103, 72, 88, 105, 51, 69, 84, 54, 71, 89, 55, 73, 91, 38, 47, 64, 34, 51, 69, 36, 54, 71],
    [96, 104, 107, 98, 110, 115, 97, 111, 119, 76, 86, 94, 82, 96, 104, 84, 98, 110, 58, 65, 75, 62, 76, 86, 64, 82, 96],
    [85, 87, 83, 101, 102, 100, 107, 112, 114, 66, 67, 70, 81, 85, 87, 94, 101, 102, 49, 48, 50, 61, 66, 67, 75, 81, 85],
    [95, 92, 83, 79, 78, 74, 63, 59, 57, 109, 108, 100, 93, 95, 92, 77, 79, 78, 117, 118, 114, 106, 109, 108, 90, 93, 95],
    [90, 77, 63, 80, 68, 56, 72, 60, 46, 106, 93, 79, 99, 90, 77, 88, 80, 68, 117, 109, 95, 113, 106, 93, 105, 99, 90],
    [105, 88, 72, 103, 91, 73, 97, 89, 71, 113, 99, 80, 116, 105, 88, 111, 103, 91, 117, 106, 90, 121, 113, 99, 119, 116, 105],
    [119, 111, 97, 115, 110, 98, 107, 104, 96, 121, 116, 103, 120, 119, 111, 112, 115, 110, 117, 113, 105, 118, 121, 116, 114, 120, 119],
    [114, 112, 107, 100, 102, 101, 83, 87, 85, 118, 120, 115, 108, 114, 112, 92, 100, 102, 117, 121, 119, 109, 118, 120, 95, 108, 114],
];
pub const FACE_ROT: [[u8; 27]; 20] = [
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 5, 5, 0, 0, 0, 1, 0, 0, 0, 5, 5, 1, 0, 5, 1, 0, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 5, 5, 0, 0, 0, 1, 0, 0, 1, 5, 5, 1, 0, 5, 1, 0, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 5, 5, 0, 0, 0, 1, 0, 0, 2, 5, 5, 1, 0, 5, 1, 0, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 5, 5, 0, 0, 0, 1, 0, 0, 3, 5, 5, 1, 0, 5, 1, 0, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 5, 5, 0, 0, 0, 1, 0, 0, 4, 5, 5, 1, 0, 5, 1, 0, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 0, 3, 3, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 0, 1, 3, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 0, 3, 3, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 0, 3, 3, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 0, 3, 3, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 0, 3, 3, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 0, 3, 3, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 0, 3, 3, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 0, 3, 3, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 0, 3, 3, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 3, 3, 0, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 3, 3, 0, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 3, 3, 0, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 3, 3, 0, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 3, 3, 0, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 3, 3, 0, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 3, 3, 0, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 3, 3, 0, 0],
    [0, 0, 3, 0, 3, 3, 3, 3, 3, 0, 3, 3, 0, 0, 0, 3, 0, 3, 0, 3, 3, 3, 0, 3, 3, 0, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 0, 5, 1, 0, 0, 1, 0, 0, 4, 5, 5, 1, 0, 0, 1, 1, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 0, 5, 1, 0, 0, 1, 0, 0, 3, 5, 5, 1, 0, 0, 1, 1, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 0, 5, 1, 0, 0, 1, 0, 0, 2, 5, 5, 1, 0, 0, 1, 1, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 0, 5, 1, 0, 0, 1, 0, 0, 1, 5, 5, 1, 0, 0, 1, 1, 0],
    [0, 0, 0, 0, 0, 3, 1, 3, 3, 0, 0, 5, 1, 0, 0, 1, 0, 0, 0, 5, 5, 1, 0, 0, 1, 1, 0],
];
/// per face: itself and its neighbours across the ij, ki and jk edges (face, translation, turns)
pub const FACE_NBR: [[[i32; 5]; 4]; 20] = [
    [[0, 0, 0, 0, 0], [4, 2, 0, 2, 1], [1, 2, 2, 0, 5], [5, 0, 2, 2, 3]],
    [[1, 0, 0, 0, 0], [0, 2, 0, 2, 1], [2, 2, 2, 0, 5], [6, 0, 2, 2, 3]],
    [[2, 0, 0, 0, 0], [1, 2, 0, 2, 1], [3, 2, 2, 0, 5], [7, 0, 2, 2, 3]],
    [[3, 0, 0, 0, 0], [2, 2, 0, 2, 1], [4, 2, 2, 0, 5], [8, 0, 2, 2, 3]],
    [[4, 0, 0, 0, 0], [3, 2, 0, 2, 1], [0, 2, 2, 0, 5], [9, 0, 2, 2, 3]],
    [[5, 0, 0, 0, 0], [10, 2, 2, 0, 3], [14, 2, 0, 2, 3], [0, 0, 2, 2, 3]],
    [[6, 0, 0, 0, 0], [11, 2, 2, 0, 3], [10, 2, 0, 2, 3], [1, 0, 2, 2, 3]],
    [[7, 0, 0, 0, 0], [12, 2, 2, 0, 3], [11, 2, 0, 2, 3], [2, 0, 2, 2, 3]],
    [[8, 0, 0, 0, 0], [13, 2, 2, 0, 3], [12, 2, 0, 2, 3], [3, 0, 2, 2, 3]],
    [[9, 0, 0, 0, 0], [14, 2, 2, 0, 3], [13, 2, 0, 2, 3], [4, 0, 2, 2, 3]],
    [[10, 0, 0, 0, 0], [5, 2, 2, 0, 3], [6, 2, 0, 2, 3], [15, 0, 2, 2, 3]],
    [[11, 0, 0, 0, 0], [6, 2, 2, 0, 3], [7, 2, 0, 2, 3], [16, 0, 2, 2, 3]],
    [[12, 0, 0, 0, 0], [7, 2, 2, 0, 3], [8, 2, 0, 2, 3], [17, 0, 2, 2, 3]],
    [[13, 0, 0, 0, 0], [8, 2, 2, 0, 3], [9, 2, 0, 2, 3], [18, 0, 2, 2, 3]],
    [[14, 0, 0, 0, 0], [9, 2, 2, 0, 3], [5, 2, 0, 2, 3], [19, 0, 2, 2, 3]],
    [[15, 0, 0, 0, 0], [16, 2, 0, 2, 1], [19, 2, 2, 0, 5], [10, 0, 2, 2, 3]],
    [[16, 0, 0, 0, 0], [17, 2, 0, 2, 1], [15, 2, 2, 0, 5], [11, 0, 2, 2, 3]],
    [[17, 0, 0, 0, 0], [18, 2, 0, 2, 1], [16, 2, 2, 0, 5], [12, 0, 2, 2, 3]],
    [[18, 0, 0, 0, 0], [19, 2, 0, 2, 1], [17, 2, 2, 0, 5], [13, 0, 2, 2, 3]],
    [[19, 0, 0, 0, 0], [15, 2, 0, 2, 1], [18, 2, 2, 0, 5], [14, 0, 2, 2, 3]],
];
