From e99946efbbb849c787c91d36a1aaf0ea100bc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 01/45] fix: do not crash when searching the largest file in an
 empty cache

---
 src/util/files.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/files.go b/src/util/files.go
index d676673..44ea1a4 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -358,6 +358,11 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 		return err, math.MinInt64, ""
 	}
 
+	if currentLargestFile == nil {
+		// No file was found
+		return nil, 0, ""
+	}
+
 	return nil, currentLargestFile.Size(), currentLargestFilePath
 }
 
-- 
2.43.0


From fa373d52484340d5233d56fc66d5e2b78338d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 02/45] fix: do not count a new file twice when checking the
 cache size

---
 src/cache/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 029f44a..ca8c36e 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -109,6 +109,8 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 		}
 
 		tempFileSizeInBytes := tempFileStat.Size()
+		// The temporary file is located within the cache folder, but it only counts once it replaced the actual file.
+		cacheSizeInBytes -= tempFileSizeInBytes
 		err = deleteFilesFromCacheIfNeeded(cacheFolderName, filename, tempFileSizeInBytes, cacheSizeInBytes)
 		if err != nil {
 			return outputFilepath, err
-- 
2.43.0


From 4724f7064d8c21c296166f3165969406b9a5df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 03/45] fix: keep the cache size correct when the replaced file
 itself gets evicted

---
 src/cache/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index ca8c36e..90b11d8 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -163,6 +163,12 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		if err != nil {
 			return err
 		}
+
+		// The deleted file might have been the old state of the new file, which then isn't replaced anymore.
+		_, err = util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
+		if err != nil {
+			netCacheSizeChangeInBytes = newFileSizeInBytes
+		}
 	}
 
 	return nil
-- 
2.43.0


From cb040d55e78585fcf16c588621ceaecf8cda0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 04/45] fix: send the whole form again when a rate-limited post
 is repeated

---
 src/http/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 9db145b..d7d00bd 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -152,6 +152,14 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			sigolo.Debugf("Received response status code %d and try request again in %d seconds", response.StatusCode, waitTime)
 			sleepFunc(waitTime)
+
+			if request.GetBody != nil {
+				// The body has already been read by the previous attempt
+				request.Body, err = request.GetBody()
+				if err != nil {
+					return nil, errors.Wrap(err, fmt.Sprintf("Unable to repeat %s request to url %s", request.Method, url))
+				}
+			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
-- 
2.43.0


From 9e1cb0b31e4056a13bfa2bf743681d2334b4ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 05/45] fix: pass paths with spaces as one argument to the
 image conversion commands

---
 src/image/image.go | 23 +++++++++++++++--------
 src/util/cmd.go    |  8 --------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index 5d75d7f..8f412db 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -24,19 +24,26 @@ func NewImageProcessingService() ImageProcessingService {
 func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string, commandTemplate string) error {
 	sigolo.Tracef("Process image '%s'", imageFilepath)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, imageFilepath)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, imageFilepath)
-
-	err := util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+	err := executeCommandTemplate(commandTemplate, imageFilepath, imageFilepath, config.Current.CacheDir)
 	return errors.Wrapf(err, "Converting image '%s' failed", imageFilepath)
 }
 
 func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile string, commandTemplate string) error {
 	sigolo.Tracef("Convert '%s' to PNG '%s'", inputFile, pngFile)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, pngFile)
-
-	err := util.ExecuteCommandWithArgs(commandString, ".")
+	err := executeCommandTemplate(commandTemplate, inputFile, pngFile, ".")
 	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
 }
+
+// executeCommandTemplate splits the template into the command and its arguments before the placeholders are replaced,
+// because the file paths might contain spaces.
+func executeCommandTemplate(commandTemplate string, inputFile string, outputFile string, workingDirectory string) error {
+	placeholderReplacer := strings.NewReplacer(config.InputPlaceholder, inputFile, config.OutputPlaceholder, outputFile)
+
+	commandParts := strings.Split(commandTemplate, " ")
+	for i, part := range commandParts {
+		commandParts[i] = placeholderReplacer.Replace(part)
+	}
+
+	return util.Execute(commandParts[0], workingDirectory, commandParts[1:]...)
+}
diff --git a/src/util/cmd.go b/src/util/cmd.go
index 59c6f63..ed8f2e8 100644
--- a/src/util/cmd.go
+++ b/src/util/cmd.go
@@ -9,14 +9,6 @@ import (
 	"github.com/pkg/errors"
 )
 
-func ExecuteCommandWithArgs(commandString string, workingDirectory string) error {
-	commandParts := strings.Split(commandString, " ")
-	commandExecutable := commandParts[0]
-	commandArgs := commandParts[1:]
-
-	return Execute(commandExecutable, workingDirectory, commandArgs...)
-}
-
 func Execute(name string, workingDirectory string, arg ...string) error {
 	cmd := exec.Command(name, arg...)
 
-- 
2.43.0


From 01fee42e03477a91f48c0898f4114c88b22ede9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 06/45] fix: do not cut image names at a colon

---
 src/wikipedia/wikipedia.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 5737d70..29b021f 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -195,8 +195,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 // in case of errors). Whenever an error is returned, the article cache folder is needed as some files might be
 // redirects and such a redirect counts as article.
 func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNameWithPrefix string) (string, bool, error) {
-	// TODO handle colons in file names
-	imageName := "File:" + strings.Split(imageNameWithPrefix, ":")[1]
+	imageName := "File:" + strings.SplitN(imageNameWithPrefix, ":", 2)[1]
 	sigolo.Debugf("Download article file for image '%s' from '%s'", imageName, imageArticleHost)
 	imageArticle, err := w.DownloadArticle(imageArticleHost, imageName)
 	if err != nil {
@@ -206,11 +205,11 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	// Replace spaces with underscore because wikimedia doesn't know spaces in file names:
 
 	originalImageNameWithPrefix := imageArticle.Parse.OriginalTitle
-	originalImageName := strings.Split(originalImageNameWithPrefix, ":")[1]
+	originalImageName := strings.SplitN(originalImageNameWithPrefix, ":", 2)[1]
 	originalImageName = strings.ReplaceAll(originalImageName, " ", "_")
 
 	actualImageNameWithPrefix := imageArticle.Parse.Title
-	actualImageName := strings.Split(actualImageNameWithPrefix, ":")[1]
+	actualImageName := strings.SplitN(actualImageNameWithPrefix, ":", 2)[1]
 	actualImageName = strings.ReplaceAll(actualImageName, " ", "_")
 
 	md5sum := fmt.Sprintf("%x", md5.Sum([]byte(actualImageName)))
-- 
2.43.0


From 9c1c751cbdd0f22eb8841a6f4fbc620613fcdfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 07/45] fix: process every image exactly once, also after a
 failed or partial earlier run

---
 src/wikipedia/wikipedia.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 29b021f..eed6069 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
@@ -168,13 +169,15 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 		if !pngAlreadyExists {
 			err := w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)
 			if err != nil {
+				// Do not leave an unfinished PNG behind, the next run would use it
+				_ = os.Remove(outputPngFilepath)
 				return err
 			}
-
-			// We pretend this is a fresh download, because the PNG is indeed fresh
-			freshlyDownloaded = true
 		}
 		outputFilepath = outputPngFilepath
+
+		// We pretend this is a fresh download, when the PNG is indeed fresh. An existing PNG has already been processed.
+		freshlyDownloaded = !pngAlreadyExists
 	}
 
 	// If the file is new, rescale it using ImageMagick.
@@ -183,6 +186,8 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if freshlyDownloaded && config.Current.CommandTemplateImageProcessing != "" && fileFormatCanBeScaled {
 		err := w.imageProcessingService.ResizeAndCompressImage(outputFilepath, config.Current.CommandTemplateImageProcessing)
 		if err != nil {
+			// Do not leave an unprocessed file behind, the next run would use it
+			_ = os.Remove(outputFilepath)
 			return err
 		}
 	}
-- 
2.43.0


From e46b8e013b31f866e37ea76e0cef5f6684d5344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 08/45] fix: let only one thread at a time download and process
 an image or formula

---
 src/wikipedia/wikipedia.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index eed6069..09caf9e 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"sync"
 	"wiki2book/cache"
 	"wiki2book/config"
 	ownHttp "wiki2book/http"
@@ -61,6 +62,10 @@ type DefaultWikipediaService struct {
 	wikipediaMathRestApi       string
 	imageProcessingService     image.ImageProcessingService
 	httpService                ownHttp.HttpService
+
+	// Articles are processed in parallel and might use the same image or formula. Only one thread at a time must download
+	// and process it, so there's a lock for each of them.
+	itemLocks sync.Map
 }
 
 func NewWikipediaService(wikipediaInstance string, wikipediaHost string, wikipediaImageInstances []string, wikipediaImageHost string, wikipediaMathRestApi string, imageProcessingService image.ImageProcessingService, httpClient ownHttp.HttpService) *DefaultWikipediaService {
@@ -104,6 +109,13 @@ func (w *DefaultWikipediaService) DownloadArticle(host string, title string) (*W
 	return wikiArticleDto, nil
 }
 
+// lockItem locks the image or formula of the given name and returns the function to unlock it.
+func (w *DefaultWikipediaService) lockItem(name string) func() {
+	lock, _ := w.itemLocks.LoadOrStore(name, &sync.Mutex{})
+	lock.(*sync.Mutex).Lock()
+	return lock.(*sync.Mutex).Unlock
+}
+
 // DownloadImages tries to download the given images from a couple of sources (wikipedia/wikimedia instances). The
 // downloaded images will be in the output folder. Some images might be redirects, so the redirect will be resolved,
 // that's why the article cache folder is needed as well.
@@ -123,6 +135,9 @@ func (w *DefaultWikipediaService) DownloadImages(images []string) error {
 func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) error {
 	var downloadErr error
 
+	// Different prefixes and spellings of spaces belong to the same image file.
+	defer w.lockItem(strings.ReplaceAll(image[strings.Index(image, ":")+1:], " ", "_"))()
+
 	for i, articleHost := range w.wikipediaImageArticleHosts {
 		var outputFilepath string
 		var freshlyDownloaded bool
@@ -276,6 +291,8 @@ func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string,
 	sigolo.Debugf("Render math %s", util.TruncString(mathString))
 	sigolo.Tracef("  Complete math text: %s", mathString)
 
+	defer w.lockItem(mathString)()
+
 	mathApiUrl := w.wikipediaMathRestApi
 
 	mathSvgFilename, err := w.getMathResource(mathString)
-- 
2.43.0


From 485ffd2ce71e930b0468b6fa5806bb63bbeb4a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 09/45] fix: keep every chapter when an article is listed more
 than once

---
 src/main.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/main.go b/src/main.go
index 1b2010f..03bab50 100644
--- a/src/main.go
+++ b/src/main.go
@@ -342,7 +342,7 @@ func generateBookFromArticles(project *config.Project) {
 	numberOfArticles := len(articles)
 	articleOutputFiles := make([]string, numberOfArticles)
 
-	articleChan := make(chan string, config.Current.WorkerThreads)
+	articleChan := make(chan int, config.Current.WorkerThreads)
 	sigolo.Debugf("Use %d worker threads to process the articles", config.Current.WorkerThreads)
 
 	wikipediaService := wikipedia.NewWikipediaService(
@@ -364,16 +364,10 @@ func generateBookFromArticles(project *config.Project) {
 		sigolo.Debugf("Start worker thread %d", i)
 
 		go func(threadNumber int) {
-			for articleName := range articleChan {
+			for articleNumber := range articleChan {
+				articleName := articles[articleNumber]
 				sigolo.Debugf("Processing article %s on thread %d", articleName, threadNumber)
 
-				articleNumber := 0
-				for ; articleNumber < len(articles); articleNumber++ {
-					if articleName == articles[articleNumber] {
-						break
-					}
-				}
-
 				thisArticleOutputFile := processArticle(articleName, articleNumber+1, numberOfArticles, wikipediaService)
 				articleOutputFiles[articleNumber] = thisArticleOutputFile
 			}
@@ -384,9 +378,9 @@ func generateBookFromArticles(project *config.Project) {
 		}(i)
 	}
 
-	for _, articleName := range articles {
+	for articleNumber, articleName := range articles {
 		sigolo.Debugf("Pass article %s to worker threads", articleName)
-		articleChan <- articleName
+		articleChan <- articleNumber
 	}
 	close(articleChan)
 
-- 
2.43.0


From fb350085c3ff9d8a79836242f03cfc46c1c139f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 10/45] fix: keep the chapter of an article whose HTML file is
 reused

---
 src/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.go b/src/main.go
index 03bab50..2f553f2 100644
--- a/src/main.go
+++ b/src/main.go
@@ -423,6 +423,9 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	articleOutputFile := ""
 	if !shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
 		sigolo.Debugf("Article '%s' (%d/%d): HTML for article does already exist. Skip parsing and HTML generation.", articleName, currentArticleNumber, totalNumberOfArticles)
+		var err error
+		articleOutputFile, err = util.ToAbsolutePath(htmlFilePath)
+		sigolo.FatalCheck(err)
 	} else {
 		sigolo.Debugf("Article '%s' (%d/%d): Download article", articleName, currentArticleNumber, totalNumberOfArticles)
 		wikiArticleDto, err := wikipediaService.DownloadArticle(wikipediaArticleHost, articleName)
-- 
2.43.0


From 54f8e0030a4b6be7c9f48d7665f71591d6fb50a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 11/45] fix: let a list setting with the default's entries in
 another order take effect

---
 src/config/config.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/config/config.go b/src/config/config.go
index fe9172c..4947a62 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 	"wiki2book/util"
 
@@ -567,25 +568,25 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override PandocDataDir with %s", absolutePath)
 		Current.PandocDataDir = absolutePath
 	}
-	if !util.EqualsInAnyOrder(c.FontFiles, defaultConfig.FontFiles) {
+	if !slices.Equal(c.FontFiles, defaultConfig.FontFiles) {
 		absolutePaths, err := util.ToAbsolutePaths(c.FontFiles...)
 		sigolo.FatalCheck(err)
 		sigolo.Tracef("Override FontFiles with %v", c.SvgSizeToViewbox)
 		Current.FontFiles = absolutePaths
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredTemplates, defaultConfig.IgnoredTemplates) {
+	if !slices.Equal(c.IgnoredTemplates, defaultConfig.IgnoredTemplates) {
 		sigolo.Tracef("Override IgnoredTemplates with %v", c.IgnoredTemplates)
 		Current.IgnoredTemplates = c.IgnoredTemplates
 	}
-	if !util.EqualsInAnyOrder(c.TrailingTemplates, defaultConfig.TrailingTemplates) {
+	if !slices.Equal(c.TrailingTemplates, defaultConfig.TrailingTemplates) {
 		sigolo.Tracef("Override TrailingTemplates with %v", c.TrailingTemplates)
 		Current.TrailingTemplates = c.TrailingTemplates
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredImageParams, defaultConfig.IgnoredImageParams) {
+	if !slices.Equal(c.IgnoredImageParams, defaultConfig.IgnoredImageParams) {
 		sigolo.Tracef("Override IgnoredImageParams with %v", c.IgnoredImageParams)
 		Current.IgnoredImageParams = c.IgnoredImageParams
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredMediaTypes, defaultConfig.IgnoredMediaTypes) {
+	if !slices.Equal(c.IgnoredMediaTypes, defaultConfig.IgnoredMediaTypes) {
 		sigolo.Tracef("Override IgnoredMediaTypes with %v", c.IgnoredMediaTypes)
 		Current.IgnoredMediaTypes = c.IgnoredMediaTypes
 	}
@@ -605,19 +606,19 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override WikipediaMathRestApi with %s", c.WikipediaMathRestApi)
 		Current.WikipediaMathRestApi = c.WikipediaMathRestApi
 	}
-	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+	if !slices.Equal(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
 		sigolo.Tracef("Override WikipediaImageArticleHosts with %v", c.WikipediaImageArticleHosts)
 		Current.WikipediaImageArticleHosts = c.WikipediaImageArticleHosts
 	}
-	if !util.EqualsInAnyOrder(c.FilePrefixes, defaultConfig.FilePrefixes) {
+	if !slices.Equal(c.FilePrefixes, defaultConfig.FilePrefixes) {
 		sigolo.Tracef("Override FilePrefixes with %v", c.FilePrefixes)
 		Current.FilePrefixes = c.FilePrefixes
 	}
-	if !util.EqualsInAnyOrder(c.AllowedLinkPrefixes, defaultConfig.AllowedLinkPrefixes) {
+	if !slices.Equal(c.AllowedLinkPrefixes, defaultConfig.AllowedLinkPrefixes) {
 		sigolo.Tracef("Override AllowedLinkPrefixes with %v", c.AllowedLinkPrefixes)
 		Current.AllowedLinkPrefixes = c.AllowedLinkPrefixes
 	}
-	if !util.EqualsInAnyOrder(c.CategoryPrefixes, defaultConfig.CategoryPrefixes) {
+	if !slices.Equal(c.CategoryPrefixes, defaultConfig.CategoryPrefixes) {
 		sigolo.Tracef("Override CategoryPrefixes with %v", c.CategoryPrefixes)
 		Current.CategoryPrefixes = c.CategoryPrefixes
 	}
-- 
2.43.0


From 293a8f059046065a0b14806e58688682fe6589d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 12/45] fix: keep absolute font file paths of a config file as
 they are

---
 src/config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index 4947a62..673ae2c 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -663,7 +663,7 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	sigolo.FatalCheck(err)
 
 	for i, f := range c.FontFiles {
-		absoluteFile := filepath.Join(absoluteConfigDir, f)
+		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
-- 
2.43.0


From acba5ab615f6361c1aa1073390a3fc77368b5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 13/45] fix: resolve relative paths of the command line before
 changing into the project's folder

---
 src/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.go b/src/main.go
index 2f553f2..d9470bd 100644
--- a/src/main.go
+++ b/src/main.go
@@ -230,6 +230,9 @@ func generateProjectEbook(projectFile string, outputFile string) {
 
 	sigolo.Infof("Use project file: '%s'", projectFile)
 
+	// Paths given on the command line are relative to the directory the program has been started in.
+	cliConfig.MakePathsAbsoluteToWorkingDir()
+
 	directory, projectFile := filepath.Split(projectFile)
 	if directory != "" {
 		sigolo.Debugf("Go into folder '%s'", directory)
-- 
2.43.0


From fef32b0b2837e839482ee7bfa074b54eb2fe6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 14/45] fix: use the default output file when neither the
 project nor the command line names one

---
 src/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.go b/src/main.go
index d9470bd..1b8e50a 100644
--- a/src/main.go
+++ b/src/main.go
@@ -246,6 +246,8 @@ func generateProjectEbook(projectFile string, outputFile string) {
 	if outputFile != "" {
 		sigolo.Tracef("Project has no output file set, so I'll use '%s'", outputFile)
 		proj.OutputFile = outputFile
+	} else if proj.OutputFile == "" {
+		proj.OutputFile = defaultEpubOutputFile
 	}
 
 	sigolo.Debug("Turn output file path into absolute path")
-- 
2.43.0


From 1f19c2cc489af5ee8ac2efa558b8da20ef29143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 15/45] fix: Read attributes of reference tags in all spellings

---
 src/parser/pattern.go   |  4 +++-
 src/parser/reference.go | 31 ++++++++++---------------------
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9e991e5..80b3b35 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -56,7 +56,9 @@ var (
 var (
 	referencePlaceholderShortRegex = regexp.MustCompile(`(?i)<references.*?/\s*>`) // <references />
 	referencePlaceholderStartRegex = regexp.MustCompile(`(?i)<references.*?\s*>`)  // <references group="foo" >
-	referencePlaceholderEndRegex   = regexp.MustCompile(`(?i)</references\s*>`)    // </references>
+	// Attribute of a tag with its value in double quotes, in single quotes or without quotes
+	attributeRegex               = regexp.MustCompile(`(?:^|\s)([a-zA-Z]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+))`)
+	referencePlaceholderEndRegex = regexp.MustCompile(`(?i)</references\s*>`) // </references>
 )
 
 // Math
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1dc66db..1501ca0 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -245,30 +245,19 @@ func (t *Tokenizer) getGroupOrDefault(content string) string {
 
 // getAttribute determines the values after "{attributeName}=" (so e.g. "name=") and supports quoted and unquoted
 // attributes. When unquoted attributes are used (e.g. as in name=foobar), the value is only interpreted until a space
-// of slash. For quoted attributes (e.g. as in name="foo bar") everything until the next quote is interpreted as name value.
+// or the end of the tag. For quoted attributes (e.g. as in name="foo bar" or name='foo bar') everything until the next
+// quote is interpreted as name value. There may be spaces around the equal sign and the case of attribute names is
+// ignored.
 func (t *Tokenizer) getAttribute(content string, attributeName string) string {
-	if strings.Contains(content, " "+attributeName+"=\"") {
-		// Attribute with quotation
-		parts := strings.Split(content, "\"")
-		for i, part := range parts {
-			if strings.HasSuffix(part, " "+attributeName+"=") {
-				// Found attribute key, next item is the value which can be returned
-				return parts[i+1]
-			}
+	for _, match := range attributeRegex.FindAllStringSubmatch(content, -1) {
+		if !strings.EqualFold(match[1], attributeName) {
+			continue
 		}
-	} else if strings.Contains(content, " "+attributeName+"=") {
-		// Attribute without quotation like "name=foo"
-		// The value ends with a space (separator for additional attributes) or slash (and of <ref.../>-token).
-		parts := strings.SplitN(content, " "+attributeName+"=", 2)
-		var letter rune
-		var attributeValue string
-		for _, letter = range parts[1] {
-			if letter == '/' || letter == ' ' || letter == '>' {
-				break
-			}
-			attributeValue += string(letter)
+		if match[4] != "" {
+			// Attribute without quotation like "name=foo". A slash at the end belongs to the <ref.../>-token.
+			return strings.TrimSuffix(match[4], "/")
 		}
-		return attributeValue
+		return match[2] + match[3]
 	}
 
 	// Attribut not found
-- 
2.43.0


From 49cb38acffea013a5ba97aa4b44480513ed5908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 16/45] fix: Do not skip reference tags that directly follow a
 removed tag

---
 src/parser/reference.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1501ca0..c4e2b8b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -85,7 +85,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			refNumberCounterForCurrentGroup := refNumberCounter[currentPlaceholderGroup]
 			refNumberToContentForCurrentGroup := refNumberToContent[currentPlaceholderGroup]
 
+			lengthBehindPlaceholder := len(content) - (startEndIndex + 1)
 			content = t.parseReferenceEndPlaceholder(content, i, startEndIndex, refNumberCounterForCurrentGroup, refNumberToContentForCurrentGroup)
+			// Continue directly behind the placeholder (the loop adds one)
+			i = len(content) - lengthBehindPlaceholder - 1
 			cursorWithinReferencePlaceholder = false
 			currentPlaceholderGroup = ""
 		} else if referencePlaceholderStartRegex.MatchString(content[i : startEndIndex+1]) {
@@ -94,6 +97,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			currentPlaceholderGroup = t.getGroupOrDefault(content[i:startEndIndex])
 			content = content[0:i] + content[startEndIndex+1:] // Remove tag from content
 			cursorWithinReferencePlaceholder = true
+			i-- // The tag is gone, continue with the character that took its place
 		} else {
 			// Tag like "<ref name=..." or "<ref>..." found
 			nameAttributeValue := t.getNameAttribute(content[i+refDefStartLen : startEndIndex])
@@ -111,6 +115,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			refNumberToContentForCurrentGroup := refNumberToContent[groupName]
 			refNumberCounterForCurrentGroup := refNumberCounter[groupName]
 
+			lengthBefore := len(content)
 			isReferenceUsage := content[startEndIndex-1] == '/' // Reference definitions end with "/>" instead of "</ref>"
 			if isReferenceUsage {
 				// Reference usage like "<ref name=foo />"
@@ -126,6 +131,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			}
 
 			refNumberCounter[groupName] = refNumberCounterForCurrentGroup
+
+			if cursorWithinReferencePlaceholder && len(content) < lengthBefore {
+				i-- // The tag is gone, continue with the character that took its place
+			}
 		}
 	}
 
-- 
2.43.0


From 71e5eed5363e3049c2790034a9522a1b38cd4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 17/45] fix: Number references in headings together with those
 of the text

---
 src/parser/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8220842..8b7abea 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -142,8 +142,8 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseNowiki(content)
 
 		content = t.parseBoldAndItalic(content)
-		content = t.parseHeadings(content)
 		content = t.parseReferences(content)
+		content = t.parseHeadings(content)
 		content = t.parseInternalLinks(content)
 
 		content = t.parseGalleries(content)
-- 
2.43.0


From 967006f739e06b8ad9eb199902f3b33176c8fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 18/45] fix: Links to sections of the same article crash the
 parser

---
 src/parser/link.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 83c24c1..602b7ca 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -90,7 +90,10 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				continue
 			}
 
-			if linkTarget[0] == ':' {
+			if linkTarget == "" {
+				// A link to a section of the same article. Therefore, the link text is the name of that section.
+				linkText = strings.TrimSpace(strings.TrimLeft(strings.TrimSpace(wikitextElements[0]), "#"))
+			} else if linkTarget[0] == ':' {
 				// A link starting with ":" indicates e.g. a link to a category. Because we have no delimiter here, the
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
-- 
2.43.0


From 11c751b5f76edde6244f78484caee47fc7c7fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 19/45] fix: Dollar signs in the text of an article are no
 tokens

---
 src/generator/expand.go | 64 ++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index a3b0e54..ac055ab 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -71,7 +71,7 @@ func expand(expansionHandler ExpansionHandler, content interface{}) (string, err
 func expandString(g ExpansionHandler, content string) (string, error) {
 	content = g.expandMarker(content)
 
-	matches := tokenRegex.FindAllString(content, -1)
+	matches := tokenRegex.FindAllStringIndex(content, -1)
 
 	if len(matches) == 0 {
 		// no token in content
@@ -79,51 +79,35 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	}
 
 	// Index where pure text starts (e.g. after a token)
-	textSegmentStartIndex := -1
+	textSegmentStartIndex := 0
 	newContent := ""
 
-	for i := 0; i < len(content); i++ {
-		if i < len(content)-1 && content[i:i+2] == "$$" {
-			// We found a token start -> Expand content before token and the token itself
-
-			// 1. Expand normal text before token (if there is any text before the token)
-			if textSegmentStartIndex != -1 {
-				pureTextSegment := content[textSegmentStartIndex:i]
-				expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-				newContent += expandedPureTextSegment
-			}
-
-			// 2. Expand token and its content
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
-			tokenKey := content[i+2 : tokenEndIndex]
-
-			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
-			if !hasTokenKey {
-				return "", errors.Errorf("Token key %s not found in token map", tokenKey)
-			}
-			sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
-
-			expandedContent, err := expand(g, tokenContent)
-			if err != nil {
-				return "", err
-			}
-
-			newContent += expandedContent
-
-			// Skip the token with its ending and continue after it. Only "+1" because the loop ads another "+1" so that the whole token ending of length 2 is skipped.
-			i = tokenEndIndex + 1
-			textSegmentStartIndex = -1
-		} else if textSegmentStartIndex == -1 {
-			// When index is unset -> set it and therefore remember the start of a pure text segment
-			textSegmentStartIndex = i
+	for _, match := range matches {
+		// 1. Expand normal text before token (if there is any text before the token)
+		if textSegmentStartIndex < match[0] {
+			newContent += g.expandSimpleString(content[textSegmentStartIndex:match[0]])
 		}
 	}
 
+
+		// 2. Expand token and its content
+		tokenKey := content[match[0]:match[1]]
+		tokenContent, hasTokenKey := g.getToken(tokenKey)
+		if !hasTokenKey {
+			return "", errors.Errorf("Token key %s not found in token map", tokenKey)
+		}
+		sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
+
+		expandedContent, err := expand(g, tokenContent)
+		if err != nil {
+			return "", err
+		}
+
+		newContent += expandedContent
+		textSegmentStartIndex = match[1]
 	// Expand the part behind the last token (if it exists)
-	if textSegmentStartIndex != -1 {
-		pureTextSegment := content[textSegmentStartIndex:]
-		expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-		newContent += expandedPureTextSegment
+	if textSegmentStartIndex < len(content) {
+		newContent += g.expandSimpleString(content[textSegmentStartIndex:])
 	}
 
 	return newContent, nil
-- 
2.43.0


From a62f21803562a27fb30eab90df12a281c163aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 20/45] fix: Text of links with unsupported protocols
 disappears

---
 src/generator/expand.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index ac055ab..853dcaa 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -44,6 +44,8 @@ func expandToken(expansionHandler ExpansionHandler, token parser.Token) (string,
 		html, err = expansionHandler.expandRefDefinition(t)
 	case parser.RefUsageToken:
 		html = expansionHandler.expandRefUsage(t)
+	case parser.StringToken:
+		html, err = expand(expansionHandler, t.String)
 	case parser.NowikiToken:
 		html = expansionHandler.expandNowiki(t)
 	}
@@ -87,8 +89,6 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 		if textSegmentStartIndex < match[0] {
 			newContent += g.expandSimpleString(content[textSegmentStartIndex:match[0]])
 		}
-	}
-
 
 		// 2. Expand token and its content
 		tokenKey := content[match[0]:match[1]]
@@ -105,6 +105,8 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 
 		newContent += expandedContent
 		textSegmentStartIndex = match[1]
+	}
+
 	// Expand the part behind the last token (if it exists)
 	if textSegmentStartIndex < len(content) {
 		newContent += g.expandSimpleString(content[textSegmentStartIndex:])
-- 
2.43.0


From eea5afc9bc9095f1423d5a224a3bf81217ef1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 21/45] fix: Indented tables are parsed as list

---
 src/parser/list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/list.go b/src/parser/list.go
index 3d97a63..ead1e32 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -46,7 +46,8 @@ func (t *Tokenizer) parseLists(content string) string {
 	for i := 0; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if line == "" || !isListStartingCharacter(line[0]) {
+		if line == "" || !isListStartingCharacter(line[0]) || tableStartRegex.MatchString(line) {
+			// Not a list or an indented table (e.g. ":{|"), which is parsed elsewhere.
 			continue
 		}
 
@@ -91,7 +92,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 	for i := startLineIndex; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if !belongsToListPrefix(line, listPrefix) {
+		if !belongsToListPrefix(line, listPrefix) || tableStartRegex.MatchString(line) {
 			break
 		}
 
-- 
2.43.0


From 917ef51bd36f56adc7c7e2009856e7c482a42790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 22/45] fix: Separators of table cells and headings depend on
 the kind of line

---
 src/parser/table.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9595b5b..3335aea 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -94,9 +94,17 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 // tokenizeTable expects content to be all lines of a table.
 func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	// ensure that each entry starts in a new row
-	content = strings.ReplaceAll(content, "||", "\n|")
-	content = strings.ReplaceAll(content, "!!", "\n!")
-	lines := strings.Split(content, "\n")
+	var lines []string
+	for _, line := range strings.Split(content, "\n") {
+		if strings.HasPrefix(strings.TrimSpace(line), "!") {
+			// A line of headings: Both separators start a new heading.
+			line = strings.ReplaceAll(line, "!!", "\n!")
+			line = strings.ReplaceAll(line, "||", "\n!")
+		} else {
+			line = strings.ReplaceAll(line, "||", "\n|")
+		}
+		lines = append(lines, strings.Split(line, "\n")...)
+	}
 
 	var rowTokens []TableRowToken
 	var captionToken TableCaptionToken
-- 
2.43.0


From 0ae771e2fd5e3acb048839c1d545791d3489e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 23/45] fix: Comment in front of text joins this text with the
 previous line

---
 src/parser/cleaner.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a02a8f8..2d72cea 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -52,8 +52,18 @@ func (t *Tokenizer) removeComments(content string) string {
 		} else {
 			nonCommentSegment := segments[0]
 
+			// Check whether nothing follows on the line of this comment, except for further comments.
+			restOfLineIsEmpty := false
+			for j := i + 1; j < len(splitContent); j++ {
+				if j < len(splitContent)-1 && strings.HasPrefix(splitContent[j], "<!--") {
+					continue
+				}
+				restOfLineIsEmpty = splitContent[j] == "" || splitContent[j][0] == '\n'
+				break
+			}
+
 			// Remove potentially trailing newline:
-			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
+			if restOfLineIsEmpty && len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
 				// If this segments ends with a newline, the comment following it started with a newline. We remove the
 				// newline, because otherwise, there will be additional blank lines between former comments. Example:
 				// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
-- 
2.43.0


From a1dcf56324cc5f9be8cba1e0af93bda731b699fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 24/45] fix: Colons in link texts are no link prefixes

---
 src/parser/cleaner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 2d72cea..7cb1c3d 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -89,7 +89,12 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
 
 			totalLinkContent := content[i+2 : endIndex]
-			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
+			// Colons in the link text (behind the first "|") or in the section name (behind "#") don't belong to a prefix.
+			linkTarget := totalLinkContent
+			if separatorIndex := strings.IndexAny(linkTarget, "|#"); separatorIndex != -1 {
+				linkTarget = linkTarget[:separatorIndex]
+			}
+			linkSegments := strings.SplitN(linkTarget, ":", -1)
 			allPrefixes := linkSegments[:len(linkSegments)-1]
 
 			// It's possible to link categories with a leading colon, e.g. [[:SomeCategory:SomeLinkText]]. They should
-- 
2.43.0


From 79b803f95d2a7c2d6d4da35f05da5a033c5e84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 25/45] fix: Trailing templates lose their arguments

---
 src/parser/cleaner.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 7cb1c3d..1409659 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -163,13 +163,14 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 			templateName := strings.ToLower(templateNameMatches[1])
 			templateName = strings.TrimSpace(templateName)
 
-			if util.HasAnyPrefix(templateName, ignoreTemplates...) || util.HasAnyPrefix(templateName, trailingTemplates...) {
+			isTrailingTemplate := util.Contains(trailingTemplates, templateName)
+			if util.HasAnyPrefix(templateName, ignoreTemplates...) || isTrailingTemplate {
 				// Replace the template with an empty string, since it should be ignored.
 				content = strings.Replace(content, templateText, "", 1)
 
 				// Collect templates that should be moved to the bottom of the article
-				if util.Contains(trailingTemplates, templateName) {
-					foundTrailingTemplates = append(foundTrailingTemplates, templateName)
+				if isTrailingTemplate {
+					foundTrailingTemplates = append(foundTrailingTemplates, templateText)
 				}
 
 				// Because the template was removed, we have to start from the original location again in the next
@@ -181,7 +182,7 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 
 	// Re-add trailing templates to the bottom of the article
 	for _, foundTrailingTemplate := range foundTrailingTemplates {
-		content += "\n{{" + foundTrailingTemplate + "}}"
+		content += "\n" + foundTrailingTemplate
 	}
 
 	return content
-- 
2.43.0


From 76b3b23261e76c1a9824da1ac7d9015a0461aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 26/45] fix: Line that starts and ends with bold text is no
 heading

---
 src/parser/cleaner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 1409659..79356e5 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -312,7 +312,7 @@ func (t *Tokenizer) walkSection(i int, lines []string, previousHeadingDepth int)
 func (t *Tokenizer) headingDepth(line string) int {
 	if !strings.HasPrefix(line, "=") || !strings.HasSuffix(line, "=") {
 		// No real heading. But maybe a semi-heading (line with only bold text)?
-		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") {
+		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") && strings.Count(line, "'''") <= 2 {
 			return semiHeadingDepth
 		}
 		// Not even semi-heading -> No heading at all
-- 
2.43.0


From 4d33f0d690910baa5dc126616a40ce1b33ebca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 27/45] fix: Equal signs within headings disappear

---
 src/parser/heading.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 17473f6..3d5f2d6 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -21,7 +21,8 @@ func (t *Tokenizer) parseHeadings(content string) string {
 			line := strings.TrimSpace(lines[i])
 
 			if strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
-				headingText := strings.ReplaceAll(line, headingMediawikiMarker, "")
+				headingText := strings.TrimPrefix(line, headingMediawikiMarker)
+				headingText = strings.TrimSuffix(headingText, headingMediawikiMarker)
 				headingText = strings.TrimSpace(headingText)
 
 				token := t.getToken(TOKEN_HEADING)
-- 
2.43.0


From 2c1e250cbeb0c594ec8b2799591ad98158ca80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 28/45] fix: Endless loop when the expansion of a template
 changes a placeholder

---
 src/parser/template.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/template.go b/src/parser/template.go
index aa5dd2d..41043c8 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -35,7 +35,8 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	// Replace all template placeholders with the actual content until no placeholders are unresolved. This is not very
 	// elegant or fast but due to the nesting a simple and working approach.
 	sigolo.Debugf("Replace %d template placeholder with evaluated content", len(placeholderToContent))
-	for strings.Contains(content, templatePlaceholderPrefix) {
+	for replacedPlaceholder := true; replacedPlaceholder; {
+		replacedPlaceholder = false
 		sigolo.Tracef("Check content for template placeholders (%d remain)", len(placeholderToContent))
 
 		for key, template := range placeholderToContent {
@@ -45,6 +46,7 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 
 			if containsPlaceholder {
 				content = strings.ReplaceAll(content, placeholder, template)
+				replacedPlaceholder = true
 				sigolo.Tracef("Replaced template placeholder %s in content", key)
 			}
 		}
-- 
2.43.0


From cf768ae53bb2c7fa0e30d0580264f4b85a406bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 29/45] fix: Closing tags of galleries and imagemaps on the
 line of other text

---
 src/parser/image.go   | 7 +++++++
 src/parser/pattern.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index 25926ec..6d438ea 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -84,6 +84,9 @@ func (t *Tokenizer) escapeImages(content string) string {
 }
 
 func (t *Tokenizer) parseGalleries(content string) string {
+	// A closing tag directly behind an image is handled like one in a line of its own
+	content = galleryEndRegex.ReplaceAllString(content, "$1\n</gallery>")
+
 	lines := strings.Split(content, "\n")
 	withinGallery := false
 	var resultLines []string
@@ -151,6 +154,10 @@ func (t *Tokenizer) parseGalleries(content string) string {
 }
 
 func (t *Tokenizer) parseImageMaps(content string) string {
+	// A closing tag on a line with other text is handled like one in a line of its own
+	content = textBeforeImagemapEndRegex.ReplaceAllString(content, "$1\n</imagemap>")
+	content = textAfterImagemapEndRegex.ReplaceAllString(content, "</imagemap>\n$1")
+
 	lines := strings.Split(content, "\n")
 
 	withinImageMap := false
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 80b3b35..61d0beb 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -41,6 +41,9 @@ var (
 // Media files
 var (
 	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
+	galleryEndRegex            = regexp.MustCompile(`(?i)([^\n])</gallery>`)
+	textBeforeImagemapEndRegex = regexp.MustCompile(`(?i)([^\n])</imagemap>`)
+	textAfterImagemapEndRegex  = regexp.MustCompile(`(?i)</imagemap>([^\n])`)
 	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
 	hasNonInlineParameterRegex = regexp.MustCompile("(?i)(" + strings.Join(imageNonInlineParameters, "|") + ")")
 )
-- 
2.43.0


From 0388dd1736628f128a4a4cdc0e5eda007907c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 30/45] fix: Bold or italic text of a reference within bold or
 italic text

---
 src/parser/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8b7abea..03ed9e6 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -141,8 +141,9 @@ func tokenizeContent(t *Tokenizer, content string) string {
 
 		content = t.parseNowiki(content)
 
-		content = t.parseBoldAndItalic(content)
+		// The text of a reference is independent of bold and italic text around it, therefore references come first
 		content = t.parseReferences(content)
+		content = t.parseBoldAndItalic(content)
 		content = t.parseHeadings(content)
 		content = t.parseInternalLinks(content)
 
-- 
2.43.0


From adc0deebbf3ba3edf481776d33ec26e8c62cb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 31/45] fix: Heading cells of several lines become ordinary
 cells

---
 src/parser/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 3335aea..d8b581d 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -170,6 +170,7 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 			break
 		}
 
+		isHeading := strings.HasPrefix(line, "!")
 		line = strings.TrimPrefix(line, "|")
 		line = strings.TrimPrefix(line, "!")
 		line = strings.TrimSpace(line)
@@ -189,7 +190,7 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		tokenizedLine = strings.TrimSpace(tokenizedLine)
 
 		var token TableColToken
-		if strings.HasPrefix(strings.TrimSpace(lines[i]), "!") {
+		if isHeading {
 			token = TableColToken{
 				Attributes: attributeToken,
 				Content:    tokenizedLine,
-- 
2.43.0


From 8b81ce290c25fc1b8cb14274f58b1ac435ab872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 32/45] fix: Text of table cells behind a second pipe
 disappears

---
 src/parser/table.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index d8b581d..ca826eb 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -100,7 +100,7 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 			// A line of headings: Both separators start a new heading.
 			line = strings.ReplaceAll(line, "!!", "\n!")
 			line = strings.ReplaceAll(line, "||", "\n!")
-		} else {
+		} else if strings.HasPrefix(strings.TrimSpace(line), "|") {
 			line = strings.ReplaceAll(line, "||", "\n|")
 		}
 		lines = append(lines, strings.Split(line, "\n")...)
@@ -181,7 +181,7 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 			line += "\n" + l
 
 			i++
-			l = lines[i]
+			l = strings.TrimSpace(lines[i])
 		}
 		// Now the index is at the start of the next column/row -> reduce by 1 for later parsing.
 		i -= 1
@@ -250,8 +250,9 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttributeToken) {
 	var attributeToken TableColAttributeToken
 
-	splittedContent := strings.Split(content, "|")
-	if len(splittedContent) < 2 {
+	// Attributes are in the first line of an entry
+	splittedContent := strings.SplitN(content, "|", 2)
+	if len(splittedContent) < 2 || strings.Contains(splittedContent[0], "\n") {
 		return t.tokenizeContent(t, content), attributeToken
 	}
 
-- 
2.43.0


From 876d0f50fb7fea268b61064e81042182f488ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 33/45] fix: Text behind the end of a table disappears

---
 src/parser/table.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index ca826eb..b18424e 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -62,6 +62,7 @@ func (t *Tokenizer) parseTables(content string) string {
 func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	var tableLines []string
 	var tableToken string
+	textBehindTable := ""
 	tableLines = append(tableLines, lines[i])
 	i++
 
@@ -75,7 +76,8 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 			tableLines = append(tableLines, tableToken)
 		} else if strings.HasPrefix(line, "|}") {
 			// the table ends with this line
-			tableLines = append(tableLines, lines[i])
+			tableLines = append(tableLines, "|}")
+			textBehindTable = strings.TrimSpace(strings.TrimPrefix(line, "|}"))
 			break
 		} else {
 			tableLines = append(tableLines, lines[i])
@@ -88,6 +90,11 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	tokenKey := t.getToken(TOKEN_TABLE)
 	t.setRawToken(tokenKey, token)
 
+	if textBehindTable != "" {
+		// Only the table belongs to the token, the text behind its end remains
+		return tokenKey + "\n" + textBehindTable, i
+	}
+
 	return tokenKey, i
 }
 
-- 
2.43.0


From 5f96a66aacff1c55ac0d4310ed65021ea170ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 34/45] fix: Spellings of colspan, rowspan and text-align that
 get lost

---
 src/parser/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 61d0beb..da39e25 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -51,8 +51,8 @@ var (
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:.+?;`)
+	tableRowAndColspanRegex = regexp.MustCompile(`(?i)(colspan|rowspan)\s*=\s*["']?(\d+)["']?`)
+	tableTextAlignRegex     = regexp.MustCompile(`text-align:[^;"']+;?`)
 )
 
 // References
-- 
2.43.0


From 293375e5495b0fa93889215b32fd8884d44fc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 35/45] fix: References defined within the list of a group get
 lost

---
 src/parser/reference.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index c4e2b8b..23de9b2 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -102,6 +102,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			// Tag like "<ref name=..." or "<ref>..." found
 			nameAttributeValue := t.getNameAttribute(content[i+refDefStartLen : startEndIndex])
 			groupName := t.getGroupOrDefault(content[i+refDefStartLen : startEndIndex])
+			if cursorWithinReferencePlaceholder && groupName == defaultReferenceGroup {
+				// References within "<references group=foo>...</references>" belong to the group "foo"
+				groupName = currentPlaceholderGroup
+			}
 
 			if nameToRefNumber[groupName] == nil {
 				nameToRefNumber[groupName] = map[string]int{}
-- 
2.43.0


From ef607f42e4cf7811c0df1d0ef36752e75947377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 36/45] fix: Crash on end tags of references with spaces

---
 src/parser/pattern.go   | 5 +++--
 src/parser/reference.go | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index da39e25..6e90f56 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -57,8 +57,9 @@ var (
 
 // References
 var (
-	referencePlaceholderShortRegex = regexp.MustCompile(`(?i)<references.*?/\s*>`) // <references />
-	referencePlaceholderStartRegex = regexp.MustCompile(`(?i)<references.*?\s*>`)  // <references group="foo" >
+	referenceEndTagRegex           = regexp.MustCompile(`(?i)</(ref|references)\s+>`) // </ref > with spaces
+	referencePlaceholderShortRegex = regexp.MustCompile(`(?i)<references.*?/\s*>`)    // <references />
+	referencePlaceholderStartRegex = regexp.MustCompile(`(?i)<references.*?\s*>`)     // <references group="foo" >
 	// Attribute of a tag with its value in double quotes, in single quotes or without quotes
 	attributeRegex               = regexp.MustCompile(`(?:^|\s)([a-zA-Z]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+))`)
 	referencePlaceholderEndRegex = regexp.MustCompile(`(?i)</references\s*>`) // </references>
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 23de9b2..b37e7dc 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -39,6 +39,8 @@ func (t *Tokenizer) parseReferences(content string) string {
 
 		For reference usages like "<ref name="foo" />", there is no start closing and the reference end is "/>".
 	*/
+	content = referenceEndTagRegex.ReplaceAllString(content, "</$1>")
+
 	refDefStart := "<ref"
 	refDefLongEnd := "</ref>"
 	refPlaceholderEnd := "</re" // Only four characters just as the refDefStart, which defined the cursor size.
-- 
2.43.0


From 150475f065ed72c8fa5d2b33da8b27f1501b57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 37/45] fix: Ignored templates within trailing templates are
 still evaluated

---
 src/parser/cleaner.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 79356e5..585de57 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -140,7 +140,28 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 	// All lower case. Makes things easier below.
 	ignoreTemplates := util.AllToLower(config.Current.IgnoredTemplates)
 	trailingTemplates := util.AllToLower(config.Current.TrailingTemplates)
-	var foundTrailingTemplates []string
+
+	// The unwanted templates are removed first, so that they also disappear from within the trailing templates, which
+	// are moved as a whole.
+	content, _ = cutTemplates(content, func(templateName string) bool {
+		return util.HasAnyPrefix(templateName, ignoreTemplates...) && !util.Contains(trailingTemplates, templateName)
+	})
+	content, foundTrailingTemplates := cutTemplates(content, func(templateName string) bool {
+		return util.Contains(trailingTemplates, templateName)
+	})
+
+	// Re-add trailing templates to the bottom of the article
+	for _, foundTrailingTemplate := range foundTrailingTemplates {
+		content += "\n" + foundTrailingTemplate
+	}
+
+	return content
+}
+
+// cutTemplates removes all templates from the content for which the given function, which gets the trimmed name of the
+// template in lower case, returns true. The remaining content and the removed templates are returned.
+func cutTemplates(content string, shouldBeCut func(templateName string) bool) (string, []string) {
+	var foundTemplates []string
 
 	for i := 0; i < len(content)-1; i++ {
 		cursor := content[i : i+2]
@@ -163,15 +184,9 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 			templateName := strings.ToLower(templateNameMatches[1])
 			templateName = strings.TrimSpace(templateName)
 
-			isTrailingTemplate := util.Contains(trailingTemplates, templateName)
-			if util.HasAnyPrefix(templateName, ignoreTemplates...) || isTrailingTemplate {
-				// Replace the template with an empty string, since it should be ignored.
+			if shouldBeCut(templateName) {
 				content = strings.Replace(content, templateText, "", 1)
-
-				// Collect templates that should be moved to the bottom of the article
-				if isTrailingTemplate {
-					foundTrailingTemplates = append(foundTrailingTemplates, templateText)
-				}
+				foundTemplates = append(foundTemplates, templateText)
 
 				// Because the template was removed, we have to start from the original location again in the next
 				// loop iteration. Therefore, we have to compensate the +1 of the loop counter.
@@ -180,12 +195,7 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 		}
 	}
 
-	// Re-add trailing templates to the bottom of the article
-	for _, foundTrailingTemplate := range foundTrailingTemplates {
-		content += "\n" + foundTrailingTemplate
-	}
-
-	return content
+	return content, foundTemplates
 }
 
 func (t *Tokenizer) removeUnwantedHtml(content string) string {
-- 
2.43.0


From 9ae83d541385315a592c2d6faa275cf65f0b7b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 38/45] fix: Content of nowiki areas is cleaned and its
 templates are evaluated

---
 src/parser/nowiki.go    | 15 ++++++++++++++-
 src/parser/tokenizer.go |  6 ++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 47914a2..6ed288d 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -1,6 +1,9 @@
 package parser
 
-import "wiki2book/util"
+import (
+	"strings"
+	"wiki2book/util"
+)
 
 type NowikiToken struct {
 	Token
@@ -19,6 +22,16 @@ func (t *Tokenizer) parseNowiki(content string) string {
 	nowikiEndLen := len(nowikiEnd)
 
 	for i := 0; i < len(content)-nowikiEndLen; i++ {
+		if strings.HasPrefix(content[i:], "<!--") {
+			// There's nothing to parse within comments
+			commentLen := strings.Index(content[i:], "-->")
+			if commentLen == -1 {
+				break
+			}
+			i += commentLen
+			continue
+		}
+
 		cursor := content[i : i+nowikiStartLen]
 
 		if util.EqualsIgnoreCase(cursor, nowikiStart) {
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 03ed9e6..70bb7d2 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -83,6 +83,9 @@ func NewTokenizer(wikipediaService wikipedia.WikipediaService) Tokenizer {
 func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	var err error
 
+	// The content of nowiki areas must not be changed, so they are parsed before cleaning anything.
+	content = t.parseNowiki(content)
+
 	sigolo.Debugf("Tokenize article '%s' [1/4]: First cleanup", title)
 	content, err = t.clean(content)
 	if err != nil {
@@ -95,6 +98,9 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 		return nil, err
 	}
 
+	// Templates may also contain nowiki areas
+	content = t.parseNowiki(content)
+
 	sigolo.Debugf("Tokenize article '%s' [3/4]: Second cleanup", title)
 	content, err = t.clean(content)
 	if err != nil {
-- 
2.43.0


From 5adf73d527f80aba512d1060e8fdbe33f9c80968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 39/45] fix: Tags within nowiki areas are interpreted

---
 src/generator/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 32b114f..cd4e772 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -394,7 +394,8 @@ func (g *HtmlGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *HtmlGenerator) expandNowiki(token parser.NowikiToken) string {
-	return token.Content
+	// Tags and comments in nowiki areas are just text
+	return strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(token.Content)
 }
 
 // write returns the output path or an error.
-- 
2.43.0


From 1249c88e3028150733ae5e1513947c87fda1df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 40/45] fix: Images disappear when 'file' is not one of the
 file prefixes

---
 src/parser/image.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 6d438ea..1b704a4 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -210,11 +210,10 @@ func (t *Tokenizer) parseImages(content string) string {
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
-		imageContent = t.escapeImages(imageContent)
+		// Whatever the file prefix of this image is, "File" works on every wiki
+		imageContent = t.escapeImages("File:" + imageContent)
 
-		filePrefix := strings.ToLower(strings.SplitN(imageContent, ":", 2)[0])
-
-		if imageContent == "" || !util.Contains(config.Current.FilePrefixes, filePrefix) {
+		if imageContent == "" {
 			content = content[0:startIndex[0]] + content[endIndex+2:]
 		} else {
 			options := strings.Split(imageContent, "|")
-- 
2.43.0


From e900b7ae8d7a01b0775ff3d13ec91d7d3539c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:34 +0000
Subject: [PATCH 41/45] fix: Content of nested lists is missing in the
 statistics

---
 src/generator/stats.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 4668261..f083af8 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -229,7 +229,18 @@ func (g *StatsGenerator) expandListItems(items []parser.ListItemToken) (string,
 }
 
 func (g *StatsGenerator) expandListItem(token parser.ListItemToken) (string, error) {
-	return expand(g, token.Content)
+	result, err := expand(g, token.Content)
+	if err != nil {
+		return "", err
+	}
+	for _, subListToken := range token.SubLists {
+		expandedSubList, err := expand(g, subListToken)
+		if err != nil {
+			return "", err
+		}
+		result += expandedSubList
+	}
+	return result, nil
 }
 
 func (g *StatsGenerator) expandRefDefinition(token parser.RefDefinitionToken) (string, error) {
-- 
2.43.0


From f8588bb4a7e79c4f912b281bc3fbc8865a26839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:34 +0000
Subject: [PATCH 42/45] fix: Text of nowiki areas is missing in the statistics

---
 src/generator/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index f083af8..439f3e0 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -259,7 +259,7 @@ func (g *StatsGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *StatsGenerator) expandNowiki(token parser.NowikiToken) string {
-	return ""
+	return g.expandSimpleString(token.Content)
 }
 
 func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
-- 
2.43.0


From 8137fa11bc6b20656ec5133759f33e96044639e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:34 +0000
Subject: [PATCH 43/45] fix: Links within an article are listed as links to an
 article without name

---
 src/generator/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 439f3e0..c46ff5f 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -156,7 +156,10 @@ func (g *StatsGenerator) expandImage(token parser.ImageToken) (string, error) {
 
 func (g *StatsGenerator) expandInternalLink(token parser.InternalLinkToken) (string, error) {
 	g.stats.NumberOfInternalLinks++
-	g.stats.InternalLinks[token.ArticleName]++
+	if token.ArticleName != "" {
+		// Links without article name refer to a section of this article
+		g.stats.InternalLinks[token.ArticleName]++
+	}
 	return expand(g, token.LinkText)
 }
 
-- 
2.43.0


From 55a116e9880e9a2a7d092e32c0a2b1e6c85c178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:34 +0000
Subject: [PATCH 44/45] fix: Order of the combined statistics differs from run
 to run

---
 src/generator/stats.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index c46ff5f..b716c8d 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -276,6 +276,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		Top10UncoveredInternalLinks: map[string]int{},
 	}
 	articles := map[string]*articleStats{}
+	var articleNames []string // In the order of the book
 
 	for _, statFile := range statFiles {
 		var fileContent []byte
@@ -293,6 +294,9 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 			return errors.Wrapf(err, "Error parsing JSON from stats file '%s'", statFile)
 		}
 
+		if _, ok := articles[stats.ArticleName]; !ok {
+			articleNames = append(articleNames, stats.ArticleName)
+		}
 		articles[stats.ArticleName] = stats
 		combinedStats.NumberOfCharacters += stats.NumberOfCharacters
 		combinedStats.NumberOfWords += stats.NumberOfWords
@@ -318,7 +322,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	}
 
 	slices.SortFunc(uncoveredArticles, func(a, b string) int {
-		return cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a])
+		return cmp.Or(cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a]), cmp.Compare(a, b))
 	})
 	for i, uncoveredArticle := range uncoveredArticles {
 		if i >= 10 {
@@ -334,7 +338,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	if config.Current.OutputType == config.OutputTypeStatsJson {
 		outputConent, err = generateJsonStatsContent(combinedStats)
 	} else if config.Current.OutputType == config.OutputTypeStatsTxt {
-		outputConent, err = generateTxtStatsContent(articles, combinedStats)
+		outputConent, err = generateTxtStatsContent(articleNames, combinedStats)
 	} else {
 		return errors.Errorf("Invalid output type '%s' for stats", config.Current.OutputType)
 	}
@@ -365,7 +369,7 @@ func generateJsonStatsContent(combinedStats *articleStats) ([]byte, error) {
 	return outputConent, nil
 }
 
-func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *articleStats) ([]byte, error) {
+func generateTxtStatsContent(articleNames []string, combinedStats *articleStats) ([]byte, error) {
 	result := "Statistics generated with wiki2book:\n\n"
 
 	result += "General:\n"
@@ -375,8 +379,8 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 
 	// Article names
 	result += "Article:\n"
-	for _, article := range articles {
-		result += "  " + article.ArticleName + "\n"
+	for _, articleName := range articleNames {
+		result += "  " + articleName + "\n"
 	}
 	result += "\n"
 
@@ -392,6 +396,9 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 		sortedUncoveredLinks = append(sortedUncoveredLinks, uncoveredLinkEntry{k, v})
 	}
 	sort.Slice(sortedUncoveredLinks, func(i, j int) bool {
+		if sortedUncoveredLinks[i].occurrences == sortedUncoveredLinks[j].occurrences {
+			return sortedUncoveredLinks[i].articleName < sortedUncoveredLinks[j].articleName
+		}
 		return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
 	})
 
-- 
2.43.0


From bcba7aa08a7f5297f38c113a4c61da450eb4aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:34 +0000
Subject: [PATCH 45/45] fix: captions that begin or end like an image parameter
 are shown

---
 src/parser/image.go   | 9 ++++++---
 src/parser/pattern.go | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 1b704a4..b66c887 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"path/filepath"
+	"slices"
 	"strconv"
 	"strings"
 	"wiki2book/config"
@@ -13,7 +14,9 @@ import (
 
 var imageNonInlineParameters = []string{
 	"mini",
+	"miniatur",
 	"thumb",
+	"thumbnail",
 }
 
 type ImageToken struct {
@@ -122,7 +125,7 @@ func (t *Tokenizer) parseGalleries(content string) string {
 
 			lineSegments := strings.Split(trimmedLine, "|")
 
-			if !hasNonInlineParameterRegex.MatchString(trimmedLine) {
+			if !slices.ContainsFunc(lineSegments[1:], imageNonInlineParameterRegex.MatchString) {
 				// Line has no non-inline parameter -> Add one to make it a non-inline image in further image parsing/escaping
 				// The last parameter is the caption, so the non-inline parameter is added right behind the file name
 				newLineSegments := make([]string, len(lineSegments)+1)
@@ -234,10 +237,10 @@ func (t *Tokenizer) parseImages(content string) string {
 			}
 
 			for i, option := range filteredOptions {
-				if util.HasAnyPrefix(option, imageNonInlineParameters...) {
+				if imageNonInlineParameterRegex.MatchString(option) {
 					tokenType = TOKEN_IMAGE
 					hasCaption = true
-				} else if strings.HasSuffix(option, "px") {
+				} else if imageSizeParameterRegex.MatchString(option) {
 					option = strings.TrimSuffix(option, "px")
 					sizes := strings.Split(option, "x")
 
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 6e90f56..7f82ccc 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -45,7 +45,9 @@ var (
 	textBeforeImagemapEndRegex = regexp.MustCompile(`(?i)([^\n])</imagemap>`)
 	textAfterImagemapEndRegex  = regexp.MustCompile(`(?i)</imagemap>([^\n])`)
 	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
-	hasNonInlineParameterRegex = regexp.MustCompile("(?i)(" + strings.Join(imageNonInlineParameters, "|") + ")")
+	// The whole parameter has to match, since a caption might begin or end like one ("miniature of ...", "... has 300px").
+	imageNonInlineParameterRegex = regexp.MustCompile(`(?i)^(` + strings.Join(imageNonInlineParameters, "|") + `)(=|\s*$)`)
+	imageSizeParameterRegex      = regexp.MustCompile(`^[\dx\s]*px$`)
 )
 
 // Tables
-- 
2.43.0

