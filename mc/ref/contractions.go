package ref

var contractionBase = map[string]string{
	"i'll":      "i will",
	"you'll":    "you will",
	"she'll":    "she will",
	"he'll":     "he will",
	"we'll":     "we will",
	"they'll":   "they will",
	"i'm":       "i am",
	"you're":    "you are",
	"she's":     "she is",
	"he's":      "he is",
	"we're":     "we are",
	"they're":   "they are",
	"i've":      "i have",
	"you've":    "you have",
	"we've":     "we have",
	"they've":   "they have",
	"i'd":       "i would",
	"you'd":     "you would",
	"she'd":     "she would",
	"he'd":      "he would",
	"we'd":      "we would",
	"they'd":    "they would",
	"isn't":     "is not",
	"aren't":    "are not",
	"wasn't":    "was not",
	"don't":     "do not",
	"doesn't":   "does not",
	"didn't":    "did not",
	"haven't":   "have not",
	"hadn't":    "had not",
	"can't":     "can not",
	"won't":     "will not",
	"will've":   "will have",
	"wouldn't":  "would not",
	"would've":  "would have",
	"couldn't":  "could not",
	"could've":  "could have",
	"shouldn't": "should not",
	"should've": "should have",
	"mightn't":  "might not",
	"might've":  "might have",
	"mustn't":   "must not",
	"must've":   "must have",
	"gonna":     "going to",
	"gotta":     "got to",
	"wanna":     "want to",
	"gimme":     "give me",
	"cannot":    "can not",
}
