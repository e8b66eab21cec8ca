package ref

// Orders is the number of ways known to Order.
const Orders = 5

// Order lists 0..n-1 in one of several ways.
func Order(n, how int) []int {
	var s []int
	switch how {
	case 0: // up
		for i := 0; i < n; i++ {
			s = append(s, i)
		}
	case 1: // down
		for i := n - 1; i >= 0; i-- {
			s = append(s, i)
		}
	case 2: // from the outside in
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			s = append(s, i)
			if i < j {
				s = append(s, j)
			}
		}
	case 3: // scattered
		step := 7
		for gcd(step, n) != 1 {
			step++
		}
		for i := 0; i < n; i++ {
			s = append(s, (i*step+3)%n)
		}
	case 4: // from the middle out
		for i, j := (n-1)/2, (n-1)/2+1; i >= 0 || j < n; i, j = i-1, j+1 {
			if i >= 0 {
				s = append(s, i)
			}
			if j < n {
				s = append(s, j)
			}
		}
	}
	return s
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
