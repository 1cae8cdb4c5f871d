package dd

// Code generated by tools/gentext.py from Python's codecs. DO NOT EDIT.

// refPages are the code pages with assigned characters, in the order of refText.
var refPages = [...]byte{0, 1, 2, 3, 5, 7, 9, 13, 15, 16, 80, 85}

// refText gives, for code page i and byte b, the UTF-8 form of its character and its length
// (length 0: the byte has no assigned character, or is a control character of no use).
var refText = [...][256][4]byte{
	{ // 0
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {2, 194, 161}, {2, 194, 162}, {2, 194, 163}, {2, 194, 164}, {2, 194, 165}, {2, 194, 166}, {2, 194, 167}, {2, 194, 168}, {2, 194, 169}, {2, 194, 170}, {2, 194, 171}, {2, 194, 172}, {2, 194, 173}, {2, 194, 174}, {2, 194, 175},
		{2, 194, 176}, {2, 194, 177}, {2, 194, 178}, {2, 194, 179}, {2, 194, 180}, {2, 194, 181}, {2, 194, 182}, {2, 194, 183}, {2, 194, 184}, {2, 194, 185}, {2, 194, 186}, {2, 194, 187}, {2, 194, 188}, {2, 194, 189}, {2, 194, 190}, {2, 194, 191},
		{2, 195, 128}, {2, 195, 129}, {2, 195, 130}, {2, 195, 131}, {2, 195, 132}, {2, 195, 133}, {2, 195, 134}, {2, 195, 135}, {2, 195, 136}, {2, 195, 137}, {2, 195, 138}, {2, 195, 139}, {2, 195, 140}, {2, 195, 141}, {2, 195, 142}, {2, 195, 143},
		{2, 195, 144}, {2, 195, 145}, {2, 195, 146}, {2, 195, 147}, {2, 195, 148}, {2, 195, 149}, {2, 195, 150}, {2, 195, 151}, {2, 195, 152}, {2, 195, 153}, {2, 195, 154}, {2, 195, 155}, {2, 195, 156}, {2, 195, 157}, {2, 195, 158}, {2, 195, 159},
		{2, 195, 160}, {2, 195, 161}, {2, 195, 162}, {2, 195, 163}, {2, 195, 164}, {2, 195, 165}, {2, 195, 166}, {2, 195, 167}, {2, 195, 168}, {2, 195, 169}, {2, 195, 170}, {2, 195, 171}, {2, 195, 172}, {2, 195, 173}, {2, 195, 174}, {2, 195, 175},
		{2, 195, 176}, {2, 195, 177}, {2, 195, 178}, {2, 195, 179}, {2, 195, 180}, {2, 195, 181}, {2, 195, 182}, {2, 195, 183}, {2, 195, 184}, {2, 195, 185}, {2, 195, 186}, {2, 195, 187}, {2, 195, 188}, {2, 195, 189}, {2, 195, 190}, {2, 195, 191},
	},
	{ // 1
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {2, 194, 161}, {2, 194, 162}, {2, 194, 163}, {2, 194, 164}, {2, 194, 165}, {2, 194, 166}, {2, 194, 167}, {2, 194, 168}, {2, 194, 169}, {2, 194, 170}, {2, 194, 171}, {2, 194, 172}, {2, 194, 173}, {2, 194, 174}, {2, 194, 175},
		{2, 194, 176}, {2, 194, 177}, {2, 194, 178}, {2, 194, 179}, {2, 194, 180}, {2, 194, 181}, {2, 194, 182}, {2, 194, 183}, {2, 194, 184}, {2, 194, 185}, {2, 194, 186}, {2, 194, 187}, {2, 194, 188}, {2, 194, 189}, {2, 194, 190}, {2, 194, 191},
		{2, 195, 128}, {2, 195, 129}, {2, 195, 130}, {2, 195, 131}, {2, 195, 132}, {2, 195, 133}, {2, 195, 134}, {2, 195, 135}, {2, 195, 136}, {2, 195, 137}, {2, 195, 138}, {2, 195, 139}, {2, 195, 140}, {2, 195, 141}, {2, 195, 142}, {2, 195, 143},
		{2, 195, 144}, {2, 195, 145}, {2, 195, 146}, {2, 195, 147}, {2, 195, 148}, {2, 195, 149}, {2, 195, 150}, {2, 195, 151}, {2, 195, 152}, {2, 195, 153}, {2, 195, 154}, {2, 195, 155}, {2, 195, 156}, {2, 195, 157}, {2, 195, 158}, {2, 195, 159},
		{2, 195, 160}, {2, 195, 161}, {2, 195, 162}, {2, 195, 163}, {2, 195, 164}, {2, 195, 165}, {2, 195, 166}, {2, 195, 167}, {2, 195, 168}, {2, 195, 169}, {2, 195, 170}, {2, 195, 171}, {2, 195, 172}, {2, 195, 173}, {2, 195, 174}, {2, 195, 175},
		{2, 195, 176}, {2, 195, 177}, {2, 195, 178}, {2, 195, 179}, {2, 195, 180}, {2, 195, 181}, {2, 195, 182}, {2, 195, 183}, {2, 195, 184}, {2, 195, 185}, {2, 195, 186}, {2, 195, 187}, {2, 195, 188}, {2, 195, 189}, {2, 195, 190}, {2, 195, 191},
	},
	{ // 2
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {2, 196, 132}, {2, 203, 152}, {2, 197, 129}, {2, 194, 164}, {2, 196, 189}, {2, 197, 154}, {2, 194, 167}, {2, 194, 168}, {2, 197, 160}, {2, 197, 158}, {2, 197, 164}, {2, 197, 185}, {2, 194, 173}, {2, 197, 189}, {2, 197, 187},
		{2, 194, 176}, {2, 196, 133}, {2, 203, 155}, {2, 197, 130}, {2, 194, 180}, {2, 196, 190}, {2, 197, 155}, {2, 203, 135}, {2, 194, 184}, {2, 197, 161}, {2, 197, 159}, {2, 197, 165}, {2, 197, 186}, {2, 203, 157}, {2, 197, 190}, {2, 197, 188},
		{2, 197, 148}, {2, 195, 129}, {2, 195, 130}, {2, 196, 130}, {2, 195, 132}, {2, 196, 185}, {2, 196, 134}, {2, 195, 135}, {2, 196, 140}, {2, 195, 137}, {2, 196, 152}, {2, 195, 139}, {2, 196, 154}, {2, 195, 141}, {2, 195, 142}, {2, 196, 142},
		{2, 196, 144}, {2, 197, 131}, {2, 197, 135}, {2, 195, 147}, {2, 195, 148}, {2, 197, 144}, {2, 195, 150}, {2, 195, 151}, {2, 197, 152}, {2, 197, 174}, {2, 195, 154}, {2, 197, 176}, {2, 195, 156}, {2, 195, 157}, {2, 197, 162}, {2, 195, 159},
		{2, 197, 149}, {2, 195, 161}, {2, 195, 162}, {2, 196, 131}, {2, 195, 164}, {2, 196, 186}, {2, 196, 135}, {2, 195, 167}, {2, 196, 141}, {2, 195, 169}, {2, 196, 153}, {2, 195, 171}, {2, 196, 155}, {2, 195, 173}, {2, 195, 174}, {2, 196, 143},
		{2, 196, 145}, {2, 197, 132}, {2, 197, 136}, {2, 195, 179}, {2, 195, 180}, {2, 197, 145}, {2, 195, 182}, {2, 195, 183}, {2, 197, 153}, {2, 197, 175}, {2, 195, 186}, {2, 197, 177}, {2, 195, 188}, {2, 195, 189}, {2, 197, 163}, {2, 203, 153},
	},
	{ // 3
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {2, 196, 166}, {2, 203, 152}, {2, 194, 163}, {2, 194, 164}, {}, {2, 196, 164}, {2, 194, 167}, {2, 194, 168}, {2, 196, 176}, {2, 197, 158}, {2, 196, 158}, {2, 196, 180}, {2, 194, 173}, {}, {2, 197, 187},
		{2, 194, 176}, {2, 196, 167}, {2, 194, 178}, {2, 194, 179}, {2, 194, 180}, {2, 194, 181}, {2, 196, 165}, {2, 194, 183}, {2, 194, 184}, {2, 196, 177}, {2, 197, 159}, {2, 196, 159}, {2, 196, 181}, {2, 194, 189}, {}, {2, 197, 188},
		{2, 195, 128}, {2, 195, 129}, {2, 195, 130}, {}, {2, 195, 132}, {2, 196, 138}, {2, 196, 136}, {2, 195, 135}, {2, 195, 136}, {2, 195, 137}, {2, 195, 138}, {2, 195, 139}, {2, 195, 140}, {2, 195, 141}, {2, 195, 142}, {2, 195, 143},
		{}, {2, 195, 145}, {2, 195, 146}, {2, 195, 147}, {2, 195, 148}, {2, 196, 160}, {2, 195, 150}, {2, 195, 151}, {2, 196, 156}, {2, 195, 153}, {2, 195, 154}, {2, 195, 155}, {2, 195, 156}, {2, 197, 172}, {2, 197, 156}, {2, 195, 159},
		{2, 195, 160}, {2, 195, 161}, {2, 195, 162}, {}, {2, 195, 164}, {2, 196, 139}, {2, 196, 137}, {2, 195, 167}, {2, 195, 168}, {2, 195, 169}, {2, 195, 170}, {2, 195, 171}, {2, 195, 172}, {2, 195, 173}, {2, 195, 174}, {2, 195, 175},
		{}, {2, 195, 177}, {2, 195, 178}, {2, 195, 179}, {2, 195, 180}, {2, 196, 161}, {2, 195, 182}, {2, 195, 183}, {2, 196, 157}, {2, 195, 185}, {2, 195, 186}, {2, 195, 187}, {2, 195, 188}, {2, 197, 173}, {2, 197, 157}, {2, 203, 153},
	},
	{ // 5
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {2, 208, 129}, {2, 208, 130}, {2, 208, 131}, {2, 208, 132}, {2, 208, 133}, {2, 208, 134}, {2, 208, 135}, {2, 208, 136}, {2, 208, 137}, {2, 208, 138}, {2, 208, 139}, {2, 208, 140}, {2, 194, 173}, {2, 208, 142}, {2, 208, 143},
		{2, 208, 144}, {2, 208, 145}, {2, 208, 146}, {2, 208, 147}, {2, 208, 148}, {2, 208, 149}, {2, 208, 150}, {2, 208, 151}, {2, 208, 152}, {2, 208, 153}, {2, 208, 154}, {2, 208, 155}, {2, 208, 156}, {2, 208, 157}, {2, 208, 158}, {2, 208, 159},
		{2, 208, 160}, {2, 208, 161}, {2, 208, 162}, {2, 208, 163}, {2, 208, 164}, {2, 208, 165}, {2, 208, 166}, {2, 208, 167}, {2, 208, 168}, {2, 208, 169}, {2, 208, 170}, {2, 208, 171}, {2, 208, 172}, {2, 208, 173}, {2, 208, 174}, {2, 208, 175},
		{2, 208, 176}, {2, 208, 177}, {2, 208, 178}, {2, 208, 179}, {2, 208, 180}, {2, 208, 181}, {2, 208, 182}, {2, 208, 183}, {2, 208, 184}, {2, 208, 185}, {2, 208, 186}, {2, 208, 187}, {2, 208, 188}, {2, 208, 189}, {2, 208, 190}, {2, 208, 191},
		{2, 209, 128}, {2, 209, 129}, {2, 209, 130}, {2, 209, 131}, {2, 209, 132}, {2, 209, 133}, {2, 209, 134}, {2, 209, 135}, {2, 209, 136}, {2, 209, 137}, {2, 209, 138}, {2, 209, 139}, {2, 209, 140}, {2, 209, 141}, {2, 209, 142}, {2, 209, 143},
		{3, 226, 132, 150}, {2, 209, 145}, {2, 209, 146}, {2, 209, 147}, {2, 209, 148}, {2, 209, 149}, {2, 209, 150}, {2, 209, 151}, {2, 209, 152}, {2, 209, 153}, {2, 209, 154}, {2, 209, 155}, {2, 209, 156}, {2, 194, 167}, {2, 209, 158}, {2, 209, 159},
	},
	{ // 7
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {3, 226, 128, 152}, {3, 226, 128, 153}, {2, 194, 163}, {3, 226, 130, 172}, {3, 226, 130, 175}, {2, 194, 166}, {2, 194, 167}, {2, 194, 168}, {2, 194, 169}, {2, 205, 186}, {2, 194, 171}, {2, 194, 172}, {2, 194, 173}, {}, {3, 226, 128, 149},
		{2, 194, 176}, {2, 194, 177}, {2, 194, 178}, {2, 194, 179}, {2, 206, 132}, {2, 206, 133}, {2, 206, 134}, {2, 194, 183}, {2, 206, 136}, {2, 206, 137}, {2, 206, 138}, {2, 194, 187}, {2, 206, 140}, {2, 194, 189}, {2, 206, 142}, {2, 206, 143},
		{2, 206, 144}, {2, 206, 145}, {2, 206, 146}, {2, 206, 147}, {2, 206, 148}, {2, 206, 149}, {2, 206, 150}, {2, 206, 151}, {2, 206, 152}, {2, 206, 153}, {2, 206, 154}, {2, 206, 155}, {2, 206, 156}, {2, 206, 157}, {2, 206, 158}, {2, 206, 159},
		{2, 206, 160}, {2, 206, 161}, {}, {2, 206, 163}, {2, 206, 164}, {2, 206, 165}, {2, 206, 166}, {2, 206, 167}, {2, 206, 168}, {2, 206, 169}, {2, 206, 170}, {2, 206, 171}, {2, 206, 172}, {2, 206, 173}, {2, 206, 174}, {2, 206, 175},
		{2, 206, 176}, {2, 206, 177}, {2, 206, 178}, {2, 206, 179}, {2, 206, 180}, {2, 206, 181}, {2, 206, 182}, {2, 206, 183}, {2, 206, 184}, {2, 206, 185}, {2, 206, 186}, {2, 206, 187}, {2, 206, 188}, {2, 206, 189}, {2, 206, 190}, {2, 206, 191},
		{2, 207, 128}, {2, 207, 129}, {2, 207, 130}, {2, 207, 131}, {2, 207, 132}, {2, 207, 133}, {2, 207, 134}, {2, 207, 135}, {2, 207, 136}, {2, 207, 137}, {2, 207, 138}, {2, 207, 139}, {2, 207, 140}, {2, 207, 141}, {2, 207, 142}, {},
	},
	{ // 9
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {2, 194, 161}, {2, 194, 162}, {2, 194, 163}, {2, 194, 164}, {2, 194, 165}, {2, 194, 166}, {2, 194, 167}, {2, 194, 168}, {2, 194, 169}, {2, 194, 170}, {2, 194, 171}, {2, 194, 172}, {2, 194, 173}, {2, 194, 174}, {2, 194, 175},
		{2, 194, 176}, {2, 194, 177}, {2, 194, 178}, {2, 194, 179}, {2, 194, 180}, {2, 194, 181}, {2, 194, 182}, {2, 194, 183}, {2, 194, 184}, {2, 194, 185}, {2, 194, 186}, {2, 194, 187}, {2, 194, 188}, {2, 194, 189}, {2, 194, 190}, {2, 194, 191},
		{2, 195, 128}, {2, 195, 129}, {2, 195, 130}, {2, 195, 131}, {2, 195, 132}, {2, 195, 133}, {2, 195, 134}, {2, 195, 135}, {2, 195, 136}, {2, 195, 137}, {2, 195, 138}, {2, 195, 139}, {2, 195, 140}, {2, 195, 141}, {2, 195, 142}, {2, 195, 143},
		{2, 196, 158}, {2, 195, 145}, {2, 195, 146}, {2, 195, 147}, {2, 195, 148}, {2, 195, 149}, {2, 195, 150}, {2, 195, 151}, {2, 195, 152}, {2, 195, 153}, {2, 195, 154}, {2, 195, 155}, {2, 195, 156}, {2, 196, 176}, {2, 197, 158}, {2, 195, 159},
		{2, 195, 160}, {2, 195, 161}, {2, 195, 162}, {2, 195, 163}, {2, 195, 164}, {2, 195, 165}, {2, 195, 166}, {2, 195, 167}, {2, 195, 168}, {2, 195, 169}, {2, 195, 170}, {2, 195, 171}, {2, 195, 172}, {2, 195, 173}, {2, 195, 174}, {2, 195, 175},
		{2, 196, 159}, {2, 195, 177}, {2, 195, 178}, {2, 195, 179}, {2, 195, 180}, {2, 195, 181}, {2, 195, 182}, {2, 195, 183}, {2, 195, 184}, {2, 195, 185}, {2, 195, 186}, {2, 195, 187}, {2, 195, 188}, {2, 196, 177}, {2, 197, 159}, {2, 195, 191},
	},
	{ // 13
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {3, 226, 128, 157}, {2, 194, 162}, {2, 194, 163}, {2, 194, 164}, {3, 226, 128, 158}, {2, 194, 166}, {2, 194, 167}, {2, 195, 152}, {2, 194, 169}, {2, 197, 150}, {2, 194, 171}, {2, 194, 172}, {2, 194, 173}, {2, 194, 174}, {2, 195, 134},
		{2, 194, 176}, {2, 194, 177}, {2, 194, 178}, {2, 194, 179}, {3, 226, 128, 156}, {2, 194, 181}, {2, 194, 182}, {2, 194, 183}, {2, 195, 184}, {2, 194, 185}, {2, 197, 151}, {2, 194, 187}, {2, 194, 188}, {2, 194, 189}, {2, 194, 190}, {2, 195, 166},
		{2, 196, 132}, {2, 196, 174}, {2, 196, 128}, {2, 196, 134}, {2, 195, 132}, {2, 195, 133}, {2, 196, 152}, {2, 196, 146}, {2, 196, 140}, {2, 195, 137}, {2, 197, 185}, {2, 196, 150}, {2, 196, 162}, {2, 196, 182}, {2, 196, 170}, {2, 196, 187},
		{2, 197, 160}, {2, 197, 131}, {2, 197, 133}, {2, 195, 147}, {2, 197, 140}, {2, 195, 149}, {2, 195, 150}, {2, 195, 151}, {2, 197, 178}, {2, 197, 129}, {2, 197, 154}, {2, 197, 170}, {2, 195, 156}, {2, 197, 187}, {2, 197, 189}, {2, 195, 159},
		{2, 196, 133}, {2, 196, 175}, {2, 196, 129}, {2, 196, 135}, {2, 195, 164}, {2, 195, 165}, {2, 196, 153}, {2, 196, 147}, {2, 196, 141}, {2, 195, 169}, {2, 197, 186}, {2, 196, 151}, {2, 196, 163}, {2, 196, 183}, {2, 196, 171}, {2, 196, 188},
		{2, 197, 161}, {2, 197, 132}, {2, 197, 134}, {2, 195, 179}, {2, 197, 141}, {2, 195, 181}, {2, 195, 182}, {2, 195, 183}, {2, 197, 179}, {2, 197, 130}, {2, 197, 155}, {2, 197, 171}, {2, 195, 188}, {2, 197, 188}, {2, 197, 190}, {3, 226, 128, 153},
	},
	{ // 15
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {2, 194, 161}, {2, 194, 162}, {2, 194, 163}, {3, 226, 130, 172}, {2, 194, 165}, {2, 197, 160}, {2, 194, 167}, {2, 197, 161}, {2, 194, 169}, {2, 194, 170}, {2, 194, 171}, {2, 194, 172}, {2, 194, 173}, {2, 194, 174}, {2, 194, 175},
		{2, 194, 176}, {2, 194, 177}, {2, 194, 178}, {2, 194, 179}, {2, 197, 189}, {2, 194, 181}, {2, 194, 182}, {2, 194, 183}, {2, 197, 190}, {2, 194, 185}, {2, 194, 186}, {2, 194, 187}, {2, 197, 146}, {2, 197, 147}, {2, 197, 184}, {2, 194, 191},
		{2, 195, 128}, {2, 195, 129}, {2, 195, 130}, {2, 195, 131}, {2, 195, 132}, {2, 195, 133}, {2, 195, 134}, {2, 195, 135}, {2, 195, 136}, {2, 195, 137}, {2, 195, 138}, {2, 195, 139}, {2, 195, 140}, {2, 195, 141}, {2, 195, 142}, {2, 195, 143},
		{2, 195, 144}, {2, 195, 145}, {2, 195, 146}, {2, 195, 147}, {2, 195, 148}, {2, 195, 149}, {2, 195, 150}, {2, 195, 151}, {2, 195, 152}, {2, 195, 153}, {2, 195, 154}, {2, 195, 155}, {2, 195, 156}, {2, 195, 157}, {2, 195, 158}, {2, 195, 159},
		{2, 195, 160}, {2, 195, 161}, {2, 195, 162}, {2, 195, 163}, {2, 195, 164}, {2, 195, 165}, {2, 195, 166}, {2, 195, 167}, {2, 195, 168}, {2, 195, 169}, {2, 195, 170}, {2, 195, 171}, {2, 195, 172}, {2, 195, 173}, {2, 195, 174}, {2, 195, 175},
		{2, 195, 176}, {2, 195, 177}, {2, 195, 178}, {2, 195, 179}, {2, 195, 180}, {2, 195, 181}, {2, 195, 182}, {2, 195, 183}, {2, 195, 184}, {2, 195, 185}, {2, 195, 186}, {2, 195, 187}, {2, 195, 188}, {2, 195, 189}, {2, 195, 190}, {2, 195, 191},
	},
	{ // 16
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {},
		{2, 194, 160}, {2, 196, 132}, {2, 196, 133}, {2, 197, 129}, {3, 226, 130, 172}, {3, 226, 128, 158}, {2, 197, 160}, {2, 194, 167}, {2, 197, 161}, {2, 194, 169}, {2, 200, 152}, {2, 194, 171}, {2, 197, 185}, {2, 194, 173}, {2, 197, 186}, {2, 197, 187},
		{2, 194, 176}, {2, 194, 177}, {2, 196, 140}, {2, 197, 130}, {2, 197, 189}, {3, 226, 128, 157}, {2, 194, 182}, {2, 194, 183}, {2, 197, 190}, {2, 196, 141}, {2, 200, 153}, {2, 194, 187}, {2, 197, 146}, {2, 197, 147}, {2, 197, 184}, {2, 197, 188},
		{2, 195, 128}, {2, 195, 129}, {2, 195, 130}, {2, 196, 130}, {2, 195, 132}, {2, 196, 134}, {2, 195, 134}, {2, 195, 135}, {2, 195, 136}, {2, 195, 137}, {2, 195, 138}, {2, 195, 139}, {2, 195, 140}, {2, 195, 141}, {2, 195, 142}, {2, 195, 143},
		{2, 196, 144}, {2, 197, 131}, {2, 195, 146}, {2, 195, 147}, {2, 195, 148}, {2, 197, 144}, {2, 195, 150}, {2, 197, 154}, {2, 197, 176}, {2, 195, 153}, {2, 195, 154}, {2, 195, 155}, {2, 195, 156}, {2, 196, 152}, {2, 200, 154}, {2, 195, 159},
		{2, 195, 160}, {2, 195, 161}, {2, 195, 162}, {2, 196, 131}, {2, 195, 164}, {2, 196, 135}, {2, 195, 166}, {2, 195, 167}, {2, 195, 168}, {2, 195, 169}, {2, 195, 170}, {2, 195, 171}, {2, 195, 172}, {2, 195, 173}, {2, 195, 174}, {2, 195, 175},
		{2, 196, 145}, {2, 197, 132}, {2, 195, 178}, {2, 195, 179}, {2, 195, 180}, {2, 197, 145}, {2, 195, 182}, {2, 197, 155}, {2, 197, 177}, {2, 195, 185}, {2, 195, 186}, {2, 195, 187}, {2, 195, 188}, {2, 196, 153}, {2, 200, 155}, {2, 195, 191},
	},
	{ // 80
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{3, 226, 148, 128}, {3, 226, 148, 130}, {3, 226, 148, 140}, {3, 226, 148, 144}, {3, 226, 148, 148}, {3, 226, 148, 152}, {3, 226, 148, 156}, {3, 226, 148, 164}, {3, 226, 148, 172}, {3, 226, 148, 180}, {3, 226, 148, 188}, {3, 226, 150, 128}, {3, 226, 150, 132}, {3, 226, 150, 136}, {3, 226, 150, 140}, {3, 226, 150, 144},
		{3, 226, 150, 145}, {3, 226, 150, 146}, {3, 226, 150, 147}, {3, 226, 140, 160}, {3, 226, 150, 160}, {3, 226, 136, 153}, {3, 226, 136, 154}, {3, 226, 137, 136}, {3, 226, 137, 164}, {3, 226, 137, 165}, {2, 194, 160}, {3, 226, 140, 161}, {2, 194, 176}, {2, 194, 178}, {2, 194, 183}, {2, 195, 183},
		{3, 226, 149, 144}, {3, 226, 149, 145}, {3, 226, 149, 146}, {2, 209, 145}, {3, 226, 149, 147}, {3, 226, 149, 148}, {3, 226, 149, 149}, {3, 226, 149, 150}, {3, 226, 149, 151}, {3, 226, 149, 152}, {3, 226, 149, 153}, {3, 226, 149, 154}, {3, 226, 149, 155}, {3, 226, 149, 156}, {3, 226, 149, 157}, {3, 226, 149, 158},
		{3, 226, 149, 159}, {3, 226, 149, 160}, {3, 226, 149, 161}, {2, 208, 129}, {3, 226, 149, 162}, {3, 226, 149, 163}, {3, 226, 149, 164}, {3, 226, 149, 165}, {3, 226, 149, 166}, {3, 226, 149, 167}, {3, 226, 149, 168}, {3, 226, 149, 169}, {3, 226, 149, 170}, {3, 226, 149, 171}, {3, 226, 149, 172}, {2, 194, 169},
		{2, 209, 142}, {2, 208, 176}, {2, 208, 177}, {2, 209, 134}, {2, 208, 180}, {2, 208, 181}, {2, 209, 132}, {2, 208, 179}, {2, 209, 133}, {2, 208, 184}, {2, 208, 185}, {2, 208, 186}, {2, 208, 187}, {2, 208, 188}, {2, 208, 189}, {2, 208, 190},
		{2, 208, 191}, {2, 209, 143}, {2, 209, 128}, {2, 209, 129}, {2, 209, 130}, {2, 209, 131}, {2, 208, 182}, {2, 208, 178}, {2, 209, 140}, {2, 209, 139}, {2, 208, 183}, {2, 209, 136}, {2, 209, 141}, {2, 209, 137}, {2, 209, 135}, {2, 209, 138},
		{2, 208, 174}, {2, 208, 144}, {2, 208, 145}, {2, 208, 166}, {2, 208, 148}, {2, 208, 149}, {2, 208, 164}, {2, 208, 147}, {2, 208, 165}, {2, 208, 152}, {2, 208, 153}, {2, 208, 154}, {2, 208, 155}, {2, 208, 156}, {2, 208, 157}, {2, 208, 158},
		{2, 208, 159}, {2, 208, 175}, {2, 208, 160}, {2, 208, 161}, {2, 208, 162}, {2, 208, 163}, {2, 208, 150}, {2, 208, 146}, {2, 208, 172}, {2, 208, 171}, {2, 208, 151}, {2, 208, 168}, {2, 208, 173}, {2, 208, 169}, {2, 208, 167}, {2, 208, 170},
	},
	{ // 85
		{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {1, 10}, {1, 11}, {1, 12}, {1, 13}, {1, 14}, {1, 15},
		{1, 16}, {1, 17}, {1, 18}, {1, 19}, {1, 20}, {1, 21}, {1, 22}, {1, 23}, {1, 24}, {1, 25}, {1, 26}, {1, 27}, {1, 28}, {1, 29}, {1, 30}, {1, 31},
		{1, 32}, {1, 33}, {1, 34}, {1, 35}, {1, 36}, {1, 37}, {1, 38}, {1, 39}, {1, 40}, {1, 41}, {1, 42}, {1, 43}, {1, 44}, {1, 45}, {1, 46}, {1, 47},
		{1, 48}, {1, 49}, {1, 50}, {1, 51}, {1, 52}, {1, 53}, {1, 54}, {1, 55}, {1, 56}, {1, 57}, {1, 58}, {1, 59}, {1, 60}, {1, 61}, {1, 62}, {1, 63},
		{1, 64}, {1, 65}, {1, 66}, {1, 67}, {1, 68}, {1, 69}, {1, 70}, {1, 71}, {1, 72}, {1, 73}, {1, 74}, {1, 75}, {1, 76}, {1, 77}, {1, 78}, {1, 79},
		{1, 80}, {1, 81}, {1, 82}, {1, 83}, {1, 84}, {1, 85}, {1, 86}, {1, 87}, {1, 88}, {1, 89}, {1, 90}, {1, 91}, {1, 92}, {1, 93}, {1, 94}, {1, 95},
		{1, 96}, {1, 97}, {1, 98}, {1, 99}, {1, 100}, {1, 101}, {1, 102}, {1, 103}, {1, 104}, {1, 105}, {1, 106}, {1, 107}, {1, 108}, {1, 109}, {1, 110}, {1, 111},
		{1, 112}, {1, 113}, {1, 114}, {1, 115}, {1, 116}, {1, 117}, {1, 118}, {1, 119}, {1, 120}, {1, 121}, {1, 122}, {1, 123}, {1, 124}, {1, 125}, {1, 126}, {1, 127},
		{3, 226, 148, 128}, {3, 226, 148, 130}, {3, 226, 148, 140}, {3, 226, 148, 144}, {3, 226, 148, 148}, {3, 226, 148, 152}, {3, 226, 148, 156}, {3, 226, 148, 164}, {3, 226, 148, 172}, {3, 226, 148, 180}, {3, 226, 148, 188}, {3, 226, 150, 128}, {3, 226, 150, 132}, {3, 226, 150, 136}, {3, 226, 150, 140}, {3, 226, 150, 144},
		{3, 226, 150, 145}, {3, 226, 150, 146}, {3, 226, 150, 147}, {3, 226, 140, 160}, {3, 226, 150, 160}, {3, 226, 136, 153}, {3, 226, 136, 154}, {3, 226, 137, 136}, {3, 226, 137, 164}, {3, 226, 137, 165}, {2, 194, 160}, {3, 226, 140, 161}, {2, 194, 176}, {2, 194, 178}, {2, 194, 183}, {2, 195, 183},
		{3, 226, 149, 144}, {3, 226, 149, 145}, {3, 226, 149, 146}, {2, 209, 145}, {2, 209, 148}, {3, 226, 149, 148}, {2, 209, 150}, {2, 209, 151}, {3, 226, 149, 151}, {3, 226, 149, 152}, {3, 226, 149, 153}, {3, 226, 149, 154}, {3, 226, 149, 155}, {2, 210, 145}, {}, {3, 226, 149, 158},
		{3, 226, 149, 159}, {3, 226, 149, 160}, {3, 226, 149, 161}, {2, 208, 129}, {2, 208, 132}, {3, 226, 149, 163}, {2, 208, 134}, {2, 208, 135}, {3, 226, 149, 166}, {3, 226, 149, 167}, {3, 226, 149, 168}, {3, 226, 149, 169}, {3, 226, 149, 170}, {2, 210, 144}, {}, {2, 194, 169},
		{2, 209, 142}, {2, 208, 176}, {2, 208, 177}, {2, 209, 134}, {2, 208, 180}, {2, 208, 181}, {2, 209, 132}, {2, 208, 179}, {2, 209, 133}, {2, 208, 184}, {2, 208, 185}, {2, 208, 186}, {2, 208, 187}, {2, 208, 188}, {2, 208, 189}, {2, 208, 190},
		{2, 208, 191}, {2, 209, 143}, {2, 209, 128}, {2, 209, 129}, {2, 209, 130}, {2, 209, 131}, {2, 208, 182}, {2, 208, 178}, {2, 209, 140}, {2, 209, 139}, {2, 208, 183}, {2, 209, 136}, {2, 209, 141}, {2, 209, 137}, {2, 209, 135}, {2, 209, 138},
		{2, 208, 174}, {2, 208, 144}, {2, 208, 145}, {2, 208, 166}, {2, 208, 148}, {2, 208, 149}, {2, 208, 164}, {2, 208, 147}, {2, 208, 165}, {2, 208, 152}, {2, 208, 153}, {2, 208, 154}, {2, 208, 155}, {2, 208, 156}, {2, 208, 157}, {2, 208, 158},
		{2, 208, 159}, {2, 208, 175}, {2, 208, 160}, {2, 208, 161}, {2, 208, 162}, {2, 208, 163}, {2, 208, 150}, {2, 208, 146}, {2, 208, 172}, {2, 208, 171}, {2, 208, 151}, {2, 208, 168}, {2, 208, 173}, {2, 208, 169}, {2, 208, 167}, {2, 208, 170},
	},
}
