pub fn params_table() -> Vec<Row> {
    let mut v = vec![];
    rows! { v;
        (0, 0, 0, 2)
        (0, 0, 1, 2)
        (0, 1, 0, 2)
        (0, 1, 1, 2)
        (0, 2, 0, 2)
        (0, 2, 1, 2)
        (0, 3, 0, 2)
        (0, 3, 1, 2)
        (0, 4, 0, 2)
        (0, 4, 1, 2)
        (0, 4, 2, 2)
        (0, 4, 3, 2)
        (0, 4, 4, 2)
        (0, 4, 5, 2)
        (0, 4, 6, 2)
        (0, 4, 7, 2)
        (0, 5, 0, 2)
        (0, 5, 1, 2)
        (0, 5, 2, 2)
        (0, 5, 3, 2)
        (0, 5, 4, 2)
        (0, 5, 5, 2)
        (0, 5, 6, 2)
        (0, 5, 7, 2)
        (0, 6, 0, 2)
        (0, 6, 1, 2)
        (0, 6, 2, 0)
        (0, 6, 2, 1)
        (0, 6, 2, 2)
        (0, 6, 2, 3)
        (0, 6, 2, 5)
        (0, 6, 3, 2)
        (0, 6, 4, 2)
        (0, 6, 5, 2)
        (0, 6, 6, 2)
        (0, 6, 7, 2)
        (0, 7, 0, 2)
        (0, 7, 6, 2)
        (0, 7, 7, 2)
        (0, 8, 0, 2)
        (0, 8, 7, 2)
        (0, 9, 0, 2)
        (0, 100, 5, 2)
        (1, 0, 0, 2)
        (1, 0, 1, 2)
        (1, 1, 0, 2)
        (1, 1, 1, 2)
        (1, 2, 0, 2)
        (1, 2, 1, 2)
        (1, 3, 0, 2)
        (1, 3, 1, 2)
        (1, 4, 0, 0)
        (1, 4, 0, 1)
        (1, 4, 0, 2)
        (1, 4, 0, 3)
        (1, 4, 0, 5)
        (1, 4, 1, 2)
        (1, 4, 2, 2)
        (1, 4, 3, 2)
        (1, 4, 4, 2)
        (1, 4, 5, 2)
        (1, 4, 6, 2)
        (1, 4, 7, 2)
        (1, 5, 0, 2)
        (1, 5, 1, 2)
        (1, 5, 2, 2)
        (1, 5, 3, 2)
        (1, 5, 4, 2)
        (1, 5, 5, 2)
        (1, 5, 6, 2)
        (1, 5, 7, 2)
        (1, 6, 0, 2)
        (1, 6, 1, 2)
        (1, 6, 2, 2)
        (1, 6, 3, 2)
        (1, 6, 4, 2)
        (1, 6, 5, 2)
        (1, 6, 6, 2)
        (1, 6, 7, 2)
        (1, 7, 0, 2)
        (1, 7, 5, 2)
        (1, 7, 6, 2)
        (1, 7, 7, 2)
        (1, 8, 0, 2)
        (1, 8, 6, 2)
        (1, 8, 7, 2)
        (1, 9, 0, 2)
        (1, 9, 7, 2)
        (1, 1000, 998, 2)
        (1, 1000, 999, 2)
        (2, 0, 0, 2)
        (2, 0, 1, 2)
        (2, 1, 0, 2)
        (2, 1, 1, 2)
        (2, 2, 0, 2)
        (2, 2, 1, 2)
        (2, 3, 0, 2)
        (2, 3, 1, 2)
        (2, 4, 0, 2)
        (2, 4, 1, 0)
        (2, 4, 1, 1)
        (2, 4, 1, 2)
        (2, 4, 1, 3)
        (2, 4, 1, 5)
        (2, 4, 2, 2)
        (2, 4, 3, 2)
        (2, 4, 4, 2)
        (2, 4, 5, 2)
        (2, 4, 6, 2)
        (2, 4, 7, 2)
        (2, 5, 0, 2)
        (2, 5, 1, 2)
        (2, 5, 2, 2)
        (2, 5, 3, 2)
        (2, 5, 4, 2)
        (2, 5, 5, 2)
        (2, 5, 6, 2)
        (2, 5, 7, 2)
        (2, 6, 0, 2)
        (2, 6, 1, 2)
        (2, 6, 2, 2)
        (2, 6, 3, 2)
        (2, 6, 4, 2)
        (2, 6, 5, 2)
        (2, 6, 6, 2)
        (2, 6, 7, 2)
        (2, 7, 0, 2)
        (2, 7, 4, 2)
        (2, 7, 5, 2)
        (2, 7, 6, 2)
        (2, 8, 0, 2)
        (2, 8, 5, 2)
        (2, 8, 6, 2)
        (2, 8, 7, 2)
        (2, 9, 0, 2)
        (2, 9, 6, 2)
        (2, 9, 7, 2)
        (3, 0, 0, 2)
        (3, 0, 1, 2)
        (3, 1, 0, 2)
        (3, 1, 1, 2)
        (3, 2, 0, 2)
        (3, 2, 1, 2)
        (3, 3, 0, 0)
        (3, 3, 0, 1)
        (3, 3, 0, 2)
        (3, 3, 0, 3)
        (3, 3, 0, 5)
        (3, 3, 1, 2)
        (3, 4, 0, 2)
        (3, 4, 1, 2)
        (3, 4, 2, 2)
        (3, 4, 3, 2)
        (3, 4, 4, 2)
        (3, 4, 5, 2)
        (3, 4, 6, 2)
        (3, 4, 7, 2)
        (3, 5, 0, 2)
        (3, 5, 1, 2)
        (3, 5, 2, 2)
        (3, 5, 3, 2)
        (3, 5, 4, 2)
        (3, 5, 5, 2)
        (3, 5, 6, 2)
        (3, 5, 7, 2)
        (3, 6, 0, 2)
        (3, 6, 1, 2)
        (3, 6, 2, 0)
        (3, 6, 2, 1)
        (3, 6, 2, 2)
        (3, 6, 2, 3)
        (3, 6, 2, 5)
        (3, 6, 3, 0)
        (3, 6, 3, 1)
        (3, 6, 3, 2)
        (3, 6, 3, 3)
        (3, 6, 3, 5)
        (3, 6, 4, 2)
        (3, 6, 5, 2)
        (3, 6, 6, 2)
        (3, 6, 7, 2)
        (3, 7, 0, 2)
        (3, 7, 3, 2)
        (3, 7, 4, 2)
        (3, 7, 5, 2)
        (3, 8, 0, 2)
        (3, 8, 4, 2)
        (3, 8, 5, 2)
        (3, 8, 6, 2)
        (3, 9, 0, 2)
        (3, 9, 5, 2)
        (3, 9, 6, 2)
        (3, 9, 7, 2)
        (4, 0, 0, 2)
        (4, 0, 1, 2)
        (4, 1, 0, 2)
        (4, 1, 1, 2)
        (4, 2, 0, 2)
        (4, 2, 1, 2)
        (4, 3, 0, 2)
        (4, 3, 1, 2)
        (4, 4, 0, 2)
        (4, 4, 1, 2)
        (4, 4, 2, 2)
        (4, 4, 3, 2)
        (4, 4, 4, 2)
        (4, 4, 5, 2)
        (4, 4, 6, 2)
        (4, 4, 7, 2)
        (4, 5, 0, 2)
        (4, 5, 1, 2)
        (4, 5, 2, 2)
        (4, 5, 3, 2)
        (4, 5, 4, 2)
        (4, 5, 5, 2)
        (4, 5, 6, 2)
        (4, 5, 7, 2)
        (4, 6, 0, 2)
        (4, 6, 1, 0)
        (4, 6, 1, 1)
        (4, 6, 1, 2)
        (4, 6, 1, 3)
        (4, 6, 1, 5)
        (4, 6, 2, 2)
        (4, 6, 3, 2)
        (4, 6, 4, 2)
        (4, 6, 5, 2)
        (4, 6, 6, 2)
        (4, 6, 7, 2)
        (4, 7, 0, 2)
        (4, 7, 1, 2)
        (4, 7, 2, 2)
        (4, 7, 3, 2)
        (4, 7, 4, 2)
        (4, 7, 5, 2)
        (4, 7, 6, 2)
        (4, 7, 7, 2)
        (4, 8, 0, 2)
        (4, 8, 1, 2)
        (4, 8, 2, 2)
        (4, 8, 3, 2)
        (4, 8, 4, 2)
        (4, 8, 5, 2)
        (4, 8, 6, 2)
        (4, 8, 7, 2)
        (4, 9, 0, 2)
        (4, 9, 4, 2)
        (4, 9, 5, 2)
        (4, 9, 6, 2)
        (5, 0, 0, 2)
        (5, 0, 1, 2)
        (5, 1, 0, 2)
        (5, 1, 1, 2)
        (5, 2, 0, 2)
        (5, 2, 1, 2)
        (5, 3, 0, 2)
        (5, 3, 1, 2)
        (5, 4, 0, 2)
        (5, 4, 1, 2)
        (5, 5, 0, 2)
        (5, 5, 1, 2)
        (5, 5, 2, 2)
        (5, 5, 3, 2)
        (5, 5, 4, 2)
        (5, 5, 5, 2)
        (5, 5, 6, 2)
        (5, 5, 7, 2)
        (5, 6, 0, 2)
        (5, 6, 1, 2)
        (5, 6, 2, 2)
        (5, 6, 3, 2)
        (5, 6, 4, 2)
        (5, 6, 5, 2)
        (5, 6, 6, 2)
        (5, 6, 7, 2)
        (5, 7, 0, 2)
        (5, 7, 1, 2)
        (5, 7, 2, 2)
        (5, 7, 3, 2)
        (5, 7, 4, 2)
        (5, 7, 5, 2)
        (5, 7, 6, 2)
        (5, 7, 7, 2)
        (5, 8, 0, 2)
        (5, 8, 1, 2)
        (5, 8, 2, 2)
        (5, 8, 3, 2)
        (5, 8, 4, 2)
        (5, 8, 5, 2)
        (5, 8, 6, 2)
        (5, 8, 7, 2)
        (5, 9, 0, 2)
        (5, 9, 1, 2)
        (5, 9, 2, 2)
        (5, 9, 3, 2)
        (5, 9, 4, 2)
        (5, 9, 5, 2)
        (5, 9, 6, 2)
        (5, 9, 7, 2)
        (6, 0, 0, 2)
        (6, 0, 1, 2)
        (6, 1, 0, 2)
        (6, 1, 1, 2)
        (6, 2, 0, 2)
        (6, 2, 1, 2)
        (6, 3, 0, 2)
        (6, 3, 1, 2)
        (6, 4, 0, 2)
        (6, 4, 1, 2)
        (6, 5, 0, 2)
        (6, 5, 1, 2)
        (6, 6, 0, 2)
        (6, 6, 1, 2)
        (6, 7, 0, 2)
        (6, 7, 1, 2)
        (6, 7, 2, 2)
        (6, 8, 0, 2)
        (6, 8, 1, 2)
        (6, 8, 2, 2)
        (6, 8, 3, 2)
        (6, 9, 0, 2)
        (6, 9, 1, 2)
        (6, 9, 2, 2)
        (6, 9, 3, 2)
        (6, 9, 4, 2)
        (6, 9, 5, 2)
        (6, 9, 6, 2)
        (6, 9, 7, 2)
        (6, 11, 4, 2)
        (6, 11, 5, 2)
        (7, 0, 0, 2)
        (7, 0, 1, 2)
        (7, 1, 0, 2)
        (7, 1, 1, 2)
        (7, 2, 0, 2)
        (7, 2, 1, 2)
        (7, 3, 0, 2)
        (7, 3, 1, 2)
        (7, 4, 0, 2)
        (7, 4, 1, 2)
        (7, 5, 0, 2)
        (7, 5, 1, 2)
        (7, 6, 0, 2)
        (7, 6, 1, 2)
        (7, 7, 0, 2)
        (7, 7, 1, 2)
        (7, 8, 0, 2)
        (7, 8, 1, 2)
        (7, 9, 0, 2)
        (7, 9, 1, 2)
        (7, 9, 2, 2)
        (7, 9, 3, 2)
        (7, 11, 3, 2)
        (10, 20, 9, 2)
        (10, 20, 10, 2)
        (11, 20, 1, 2)
        (16, 31, 14, 2)
        (16, 31, 15, 2)
        (17, 31, 2, 2)
        (20, 40, 19, 2)
        (20, 40, 20, 2)
        (21, 40, 5, 2)
        (50, 100, 49, 2)
        (50, 100, 50, 2)
        (51, 100, 1, 2)
        (500, 1000, 499, 2)
        (501, 1000, 2, 2)
    }
    v
}
